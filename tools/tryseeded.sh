#!/bin/bash
# tryseeded.sh [-c] ID... : confirms planted bugs (build, stable tests, demonstration with and without); -c only runs the check.
out=/tmp/seeded-results.txt
only=; [ "$1" = -c ] && { only=1; shift; }
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
for id in "$@"; do
    d=/verif/seeded/$id
    prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    r=""
    if [ -z "$only" ]; then
        bash "$d/demo.sh" >/tmp/demo-clean.log 2>&1; r="clean=$?"
    fi
    git apply "$d/patch.diff" || { echo "$id does not apply"; continue; }
    if [ -z "$only" ]; then
        orig=0
        for f in $(git diff --name-only); do
            for l in $(git diff -U0 HEAD -- "$f" | grep -oE '^@@ -[0-9]+(,[0-9]+)?' | sed 's/@@ -//'); do
                s=${l%,*}; n=${l#*,}; [ "$n" = "$l" ] && n=1; [ "$n" = 0 ] && continue
                orig=$((orig + $(git blame -s HEAD -L "$s,+$n" -- "$f" | grep -c '^^dd8b54c')))
            done
        done
        bash /opt/vp/build.sh >/tmp/seed-build.log 2>&1; r="$r build=$?"
        bash /opt/vp/test.sh /tmp/seed-t.json >/dev/null 2>&1
        r="$r tests=$(python3 -c "
import json
t=json.load(open('/tmp/seed-t.json')); b=json.load(open('/opt/vp/BASELINE.json'))
st=b.get('stable') or b.get('passed') or b
print('ok' if all(x in t['passed'] for x in (st if isinstance(st,list) else [])) else 'FAIL', len(t['passed']))")"
        bash "$d/demo.sh" >/tmp/demo-bug.log 2>&1; r="$r patched=$? original-lines=$orig"
    fi
    s=$(date +%s)
    SPOPSIM_ROOT=/tmp/vr /verif/check.sh "$prop" >/tmp/seed-check.log 2>&1; c=$?
    r="$r check=$c ($(($(date +%s) - s)) s: $(grep -B1 '^VIOLATION' /tmp/seed-check.log | grep -v '^VIOLATION\|^--' | cut -d: -f1 | sort -u | tr '\n' ' '))"
    git checkout -q -- .
    echo "$id $prop $r" | tee -a "$out"
done
