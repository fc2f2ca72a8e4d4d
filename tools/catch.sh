#!/bin/bash
# catch.sh SEED [PROP...]: apply a planted bug to /repo, run the checks, undo it.
cd /verif || exit 2
s=$1; shift
props=${*:-$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")}
git -C /repo apply "/verif/seeded/$s/patch.diff" || exit 2
for p in $props; do
    t0=$(date +%s)
    ./check.sh "$p" quick >"/tmp/catch.$s.$p.log" 2>&1; rc=$?
    echo "$s $p rc=$rc $(grep -c '^VIOLATION' "/tmp/catch.$s.$p.log") $(( $(date +%s) - t0 ))s $(grep -m1 '^VIOLATION' "/tmp/catch.$s.$p.log")"
done
git -C /repo checkout -q -- .
