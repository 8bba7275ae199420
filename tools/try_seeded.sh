#!/bin/bash
# Applies each planted bug in /repo in turn, runs its property's check and restores /repo.
# usage: try_seeded.sh [ID...]
cd "$(dirname "$0")/.." || exit 2
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
for id in "${@:-}"; do [ -n "$id" ] && ids="$ids $id"; done
for id in ${ids:-$(ls seeded)}; do
    d=$PWD/seeded/$id
    prop=$(/opt/venv/bin/python -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "$d/meta.json")
    if ! git -C /repo apply --check "$d/patch.diff" 2>/dev/null; then
        if git -C /repo apply -C1 "$d/patch.diff" 2>/dev/null; then
            git -C /repo diff -U1 > "$d/patch.diff"; git -C /repo checkout -q -- .; echo "$id: patch refreshed"
        else
            echo "$id: DOES NOT APPLY"; continue
        fi
    fi
    git -C /repo apply "$d/patch.diff"
    out=$(timeout 900 /opt/venv/bin/python -B run.py "$prop" 2>&1); rc=$?
    git -C /repo checkout -q -- .
    if [ $rc -eq 1 ] && grep -q "VIOLATION property=$prop " <<<"$out"; then echo "$id: $prop caught"; else echo "$id: $prop MISSED (exit $rc)"; fi
done
