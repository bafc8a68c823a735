#!/bin/bash
# catch.sh ID [PROP...]: applies a planted bug to /repo, runs the checks, undoes it
id=$1
shift
S=/verif/seeded/$id
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
props=${*:-$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$S/meta.json")}
git -C /repo apply "$S/patch.diff" || exit 2
cd /verif || exit 2
for p in $props; do
    out=$(VERIF_SEED=${SEED:-1} VERIF_TIER=${TIER:-quick} python3 vp.py check "$p" 2>&1)
    rc=$?
    echo "$id $p rc=$rc $(echo "$out" | grep -E '^(case |VIOLATION|build|runner|unstable)' | cut -c1-160 | tr '\n' ' ')"
done
git -C /repo checkout -q -- .
