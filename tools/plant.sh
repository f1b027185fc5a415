#!/bin/bash
# plant.sh ID PROPERTY NEEDS BREAKS: the changes made in /tmp/seed/repo (a copy of
# /repo) and /tmp/seed/demo.rs become the planted bug ID, if they are one.
id=$1; out=/verif/seeded/$id; copy=/tmp/seed/repo
. /opt/vp/env.sh
git -C "$copy" diff > /tmp/seed/patch.diff
test -s /tmp/seed/patch.diff || { echo "no change"; exit 1; }
mkdir -p "$out"; cp /tmp/seed/patch.diff "$out/patch.diff"
cp /tmp/seed/demo.rs "$out/demo.rs"; grep -q "^mod net" /tmp/seed/demo.rs && cp /verif/tools/net.rs "$out/net.rs"; grep -q easy_upnp /tmp/seed/demo.rs && cp /verif/harness/fake-upnp/src/lib.rs "$out/upnp.rs"; cp /verif/tools/demo.sh "$out/demo.sh"; chmod +x "$out/demo.sh"
python3 - "$@" <<'P'
import json, sys
_, id, prop, needs, breaks = sys.argv
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"/verif/seeded/{id}/meta.json", "w"), indent=1)
P
bad=0
(cd /repo && "$out/demo.sh" > /tmp/seed/clean.txt 2>&1) || { echo "demo fails on the clean tree"; tail -5 /tmp/seed/clean.txt; bad=1; }
(cd "$copy" && "$out/demo.sh" > /tmp/seed/bug.txt 2>&1); code=$?
if [ $code = 0 ] || grep -q "^error" /tmp/seed/bug.txt; then echo "demo ends with $code on the changed tree"; tail -5 /tmp/seed/bug.txt; bad=1; else echo "bug: $(tail -1 /tmp/seed/bug.txt)"; fi
(cd "$copy" && cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > /tmp/seed/test.log 2>&1)
python3 /opt/vp/results.py /tmp/seed/test.json cargo:/tmp/seed/test.log > /dev/null
python3 - <<'P' || bad=1
import json
base = json.load(open("/opt/vp/BASELINE.json")); got = json.load(open("/tmp/seed/test.json"))
def passed(d):
    for k in ("passed", "stable", "tests"):
        if k in d: d = d[k]; break
    if isinstance(d, dict): return {k for k, v in d.items() if v in (True, "passed", "pass", "ok")}
    return set(d)
missing = passed(base) - passed(got)
print("tests:", len(passed(base)), "stable,", len(missing), "fail", sorted(missing)[:3])
raise SystemExit(1 if missing or not passed(base) else 0)
P
git -C "$copy" checkout -q -- .
[ $bad = 0 ] && echo "planted $id" || { echo "REJECTED $id"; rm -rf "/verif/seeded/$id"; }
