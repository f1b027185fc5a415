"""What all the checks share: building the harness, running TLC, covering the
transitions of a specification with walks, running the harness in parallel,
having TLC judge recorded histories, and reporting."""

import atexit
import collections
import concurrent.futures
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(ROOT, "spec")
WORK = os.path.join(ROOT, "work")
HARNESS = os.path.join(ROOT, "harness")
BINARY = os.path.join(HARNESS, "target", "release", "harness")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = 8

SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"

STARTED = time.time()


class ToolError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.replay = replay


def progress(what):
    if "VERIF_PROGRESS" in os.environ:
        print(f"[{time.time() - STARTED:.1f}s] {what}", flush=True)


def pick(quick, thorough):
    return thorough if THOROUGH else quick


_scratch = None


def scratch():
    global _scratch

    if _scratch is None:
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > 2 << 30 else "/tmp"
        _scratch = tempfile.mkdtemp(prefix="verif-", dir=base)
        atexit.register(shutil.rmtree, _scratch, ignore_errors=True)

    return _scratch


_counter = 0


def fresh(name):
    global _counter
    _counter += 1
    return os.path.join(scratch(), f"{_counter}-{name}")


# ------------------------------------------------------------------ building

def source_hash():
    digest = hashlib.sha256()

    for base, folders, files in os.walk(REPO):
        folders[:] = sorted(f for f in folders if f not in (".git", "target"))

        for name in sorted(files):
            path = os.path.join(base, name)

            if name.endswith((".rs", ".toml")):
                digest.update(path.encode() + b"\0")
                with open(path, "rb") as file:
                    digest.update(file.read() + b"\0")

    return digest.hexdigest()


def build():
    """Build the harness against /repo's working tree."""
    stamp = os.path.join(HARNESS, "target", "source.sha256")
    current = source_hash()

    try:
        with open(stamp) as file:
            known = file.read()
    except OSError:
        known = None

    clean = "" if known == current else "cargo clean --release --offline -p hyperborealib >/dev/null 2>&1; "

    command = f". /opt/vp/env.sh; unset CARGO_TARGET_DIR; cd '{HARNESS}' && {{ {clean} cargo build --release --offline; }}"
    result = subprocess.run(["bash", "-c", command], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

    if result.returncode != 0 or not os.path.exists(BINARY):
        raise ToolError("the harness doesn't build:\n" + result.stdout[-4000:])

    with open(stamp, "w") as file:
        file.write(current)


# ----------------------------------------------------------------------- TLC

def tlc(module, config=None, env=None, simulate=None, timeout=1500, memory="3g", on_line=None, collect=True, workers=1, expected=(0,)):
    """Run TLC on a module of /verif/spec; returns its output lines."""
    config = config or module + ".cfg"
    meta = fresh("tlc")
    os.makedirs(meta)

    command = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", f"-Djava.io.tmpdir={scratch()}", f"-Xmx{memory}", "-Xss16m", "-cp", TLA, "tlc2.TLC",
               "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE", "-config", config]

    if simulate:
        command += simulate

    command.append(module + ".tla")

    process = subprocess.Popen(command, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env={**os.environ, **(env or {})})
    lines = []

    try:
        deadline = time.time() + timeout

        for line in process.stdout:
            if on_line is None or not on_line(line):
                lines.append(line.rstrip("\n"))

            if time.time() > deadline:
                raise ToolError(f"TLC on {module} takes too long")

        code = process.wait(timeout=60)
    finally:
        process.kill()
        process.wait()
        shutil.rmtree(meta, ignore_errors=True)

    if code not in expected:
        raise ToolError(f"TLC on {module} ({config}) ended with {code}:\n" + "\n".join(lines[-60:]))

    return lines


def numbers(lines):
    """States and transitions that TLC reports to have explored."""
    for line in reversed(lines):
        if "states generated" in line and "distinct states found" in line:
            words = line.replace(",", "").split()
            return int(words[words.index("distinct") - 1]), int(words[0])

    return 0, 0


def printed(module, marker, **options):
    """Run TLC and return the JSON values that the module printed with the marker."""
    values = []
    start = f'"{marker} '

    def on_line(line):
        if line.startswith(start):
            values.append(json.loads(json.loads(line)[len(marker) + 1:]))
            return True

        return False

    lines = tlc(module, on_line=on_line, **options)
    return values, lines


# --------------------------------------------------------------------- walks

def canonical(value):
    return json.dumps(value, sort_keys=True)


class Graph:
    """Transitions printed by a module, and walks that cover all of them."""

    def __init__(self, printed_edges, initial=None):
        self.nodes = {}
        self.states = []
        self.out = []
        self.edges = []
        known = set()

        for edge in printed_edges:
            source, target = self.node(edge["f"]), self.node(edge["t"])
            key = (source, canonical(edge["op"]), target)

            if key in known:
                continue

            known.add(key)
            self.out[source].append(len(self.edges))
            self.edges.append({"op": edge["op"], "from": source, "to": target})

        self.initial = 0 if initial is None else self.nodes[canonical(initial)]

    def node(self, state):
        key = canonical(state)

        if key not in self.nodes:
            self.nodes[key] = len(self.nodes)
            self.states.append(state)
            self.out.append([])

        return self.nodes[key]

    def walks(self, rng, longest=300):
        pending = [list(edges) for edges in self.out]

        for edges in pending:
            rng.shuffle(edges)

        left = sum(map(len, pending))
        walks = []

        while left:
            walk, node = [], self.initial

            while left and len(walk) < longest:
                if pending[node]:
                    edge = pending[node].pop()
                    left -= 1
                    walk.append(edge)
                    node = self.edges[edge]["to"]
                    continue

                path = self.path_to_pending(node, pending)

                if path is None or (walk and len(walk) + len(path) > longest):
                    break

                walk += path
                node = self.edges[path[-1]]["to"]

            if not walk:
                raise ToolError("unreachable transitions")

            walks.append(walk)

        return walks

    def random_walks(self, rng, count, length):
        """Walks beyond those for coverage: longer histories in other orders."""
        walks = []

        for _ in range(count):
            walk, node = [], self.initial

            for _ in range(length):
                if not self.out[node]:
                    break

                edge = rng.choice(self.out[node])
                walk.append(edge)
                node = self.edges[edge]["to"]

            walks.append(walk)

        return walks

    def path_to_pending(self, start, pending):
        came = {start: None}
        queue = collections.deque([start])

        while queue:
            node = queue.popleft()

            if pending[node] and node != start:
                path = []

                while came[node] is not None:
                    path.append(came[node])
                    node = self.edges[came[node]]["from"]

                return path[::-1]

            for edge in self.out[node]:
                target = self.edges[edge]["to"]

                if target not in came:
                    came[target] = edge
                    queue.append(target)

        return None


# ------------------------------------------------------------------- harness

def harness(command, plans, timeout=800):
    """Run the harness for all the plans, in parallel; returns the results."""
    def one(plan):
        folder = fresh("harness")
        os.makedirs(folder)
        plan = {"seed": SEED, "scratch": os.path.join(folder, "scratch"), **plan}
        os.makedirs(plan["scratch"])
        plan_path, output = os.path.join(folder, "plan.json"), os.path.join(folder, "result.json")

        with open(plan_path, "w") as file:
            json.dump(plan, file)

        try:
            result = subprocess.run(["bash", "-c", 'ulimit -v 16000000; exec "$0" "$@"', BINARY, command, plan_path, output],
                                    stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError(f"harness {command} takes too long")

        shutil.rmtree(plan["scratch"], ignore_errors=True)

        if not os.path.exists(output):
            # the code under test can end the process, too: by an abort, say
            if result.returncode in (-6, -11, -4, -7, -8):
                return {"failure": {"kind": f"process died by signal {-result.returncode}", "what": result.stdout[-2000:]}}

            raise ToolError(f"harness {command} ended with {result.returncode}:\n{result.stdout[-3000:]}")

        with open(output) as file:
            return json.load(file)

    before = time.time()

    with concurrent.futures.ThreadPoolExecutor(CORES) as pool:
        results = list(pool.map(one, plans))

    progress(f"harness {command}: {time.time() - before:.1f}s")
    return results


def failures(results, about):
    for result in results:
        if result.get("failure"):
            raise Violation(result["failure"].get("kind", "failure"), {**about, "failure": result["failure"]})


def total(results, name):
    return sum(result.get(name, 0) for result in results)


def shard(items, count=CORES):
    return [items[i::count] for i in range(count) if items[i::count]]


# ------------------------------------------------------------------ histories

def judge(module, files, about, timeout=800):
    """Have TLC decide whether the specification allows the recorded histories in the files."""
    states = [0, 0]

    def one(path):
        accepted = set()

        def on_line(line):
            if line.startswith('<<"ACCEPTED", "'):
                accepted.add(line.split('"')[3])
                return True

            return False

        ids = []

        with open(path) as file:
            for line in file:
                if line.strip():
                    ids.append(json.loads(line)["id"])

        if not ids:
            return None, 0, (0, 0)

        lines = tlc(module, env={"TRACE": path}, on_line=on_line, timeout=timeout)
        rejected = [name for name in ids if name not in accepted]
        return (path, rejected[0]) if rejected else None, len(ids), numbers(lines)

    count = 0

    before = time.time()

    with concurrent.futures.ThreadPoolExecutor(CORES) as pool:
        outcomes = list(pool.map(one, files))

    progress(f"judging with {module}: {time.time() - before:.1f}s")

    for rejected, ids, explored in outcomes:
        count += ids
        states[0] += explored[0]
        states[1] += explored[1]

        if rejected:
            raise Violation("a recorded history is no behaviour of the specification", diagnose(module, *rejected, about))

    return count, states[0], states[1]


def diagnose(module, path, name, about):
    """Where the longest allowed prefix of the rejected history ends."""
    with open(path) as file:
        history = next(history for history in map(json.loads, filter(str.strip, file)) if history["id"] == name)

    single = fresh("rejected.ndjson")

    with open(single, "w") as file:
        file.write(json.dumps(history) + "\n")

    reached = 0

    def on_line(line):
        nonlocal reached

        if line.startswith('<<"AT", "'):
            reached = max(reached, int(line.rstrip().rstrip(">").split(",")[-1]))
            return True

        return False

    tlc(module, env={"TRACE": single, "VERBOSE": "1"}, on_line=on_line)
    event = history["events"][reached - 1] if 0 < reached <= len(history["events"]) else None

    return {**about, "module": module, "first event without counterpart": {"number": reached, "event": event}, "history": history}


def sample_history(path, longest=12):
    with open(path) as file:
        history = json.loads(file.readline())

    return {"id": history["id"], "about": history.get("about"), "events": history["events"][:longest], "length": len(history["events"])}


# -------------------------------------------------------------------- reports

def evidence(check, level, coverage, assumptions, violations=0):
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    path = os.path.join(ROOT, "evidence", f"{check}.json")

    with open(path, "w") as file:
        json.dump({
            "property": check,
            "tier": TIER if TIER in ("quick", "thorough") else "quick",
            "seed": SEED,
            "level": level,
            "coverage": coverage,
            "assumptions": assumptions,
            "wall_s": round(time.time() - STARTED, 2),
            "violations": violations
        }, file, indent=1)


def main(checks):
    import traceback

    if len(sys.argv) < 2 or sys.argv[1] not in checks:
        print(f"usage: run.py <{'|'.join(sorted(checks))}>")
        sys.exit(2)

    name = sys.argv[1]
    function, level = checks[name]

    try:
        build()
        coverage, assumptions = function()
        evidence(name, level, coverage, assumptions)
        print(f"OK property={name} tier={TIER} seed={SEED} wall={time.time() - STARTED:.1f}s")
        sys.exit(0)

    except Violation as violation:
        folder = os.path.join(WORK, "replay")
        os.makedirs(folder, exist_ok=True)
        path = os.path.join(folder, f"{name}-seed{SEED}-{TIER}.json")

        with open(path, "w") as file:
            json.dump({"property": name, "seed": SEED, "tier": TIER, "rerun": f"VERIF_SEED={SEED} VERIF_TIER={TIER} python3 run.py {name}",
                       "violation": str(violation), **violation.replay}, file, indent=1)

        evidence(name, level, {"evaluations": 1, "distinct_nontrivial": 1, "rule": "stopped at a violation", "samples": [str(violation)],
                               "explanation": "stopped at a violation", "states": 0, "transitions": 0, "traces_validated_against_impl": 0}, [], 1)
        print(f"{violation}: {json.dumps(violation.replay)[:1500]}")
        print(f"VIOLATION property={name} replay={path}")
        sys.exit(1)

    except Exception:
        traceback.print_exc()
        sys.exit(2)
