#!/bin/bash
# try.sh ID [PROPERTY]: the check of the property on a copy of /repo with the planted
# bug, mounted in place of /repo for this run only.
id=$1; prop=${2:-$(python3 -c "import json; print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
mkdir -p /tmp/try/verif
exec 9> /tmp/try/lock; flock 9
[ -d /tmp/try/repo ] || git clone -q /repo /tmp/try/repo
git -C /tmp/try/repo fetch -q /repo HEAD && git -C /tmp/try/repo reset -q --hard FETCH_HEAD
[ -f /repo/Cargo.lock ] && cp /repo/Cargo.lock /tmp/try/repo/
git -C /tmp/try/repo apply "/verif/seeded/$id/patch.diff" || exit 2
rsync -a --delete --exclude target --exclude .git --exclude seeded --exclude work /verif/ /tmp/try/verif/ 2>/dev/null ||
    (cd /verif && tar cf - --exclude=target --exclude=.git --exclude=seeded --exclude=work . | tar xf - -C /tmp/try/verif)
mkdir -p /tmp/try/verif/work
unshare -m bash -c "mount --bind /tmp/try/repo /repo && mount --bind /tmp/try/verif /verif && cd /verif && python3 run.py $prop" > "/tmp/try-$id-$prop.txt" 2>&1; code=$?
echo "$id $prop exit=$code $(grep -c '^VIOLATION' "/tmp/try-$id-$prop.txt") $(tail -2 "/tmp/try-$id-$prop.txt" | head -1 | cut -c1-200)"
