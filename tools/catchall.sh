#!/bin/bash
# catchall.sh JOBS SEED...: run each planted bug against the check of its
# property (SEED:PROP for another one) on copies of the two trees.
jobs=$1; shift
one() {
    s=${1%%:*}; p=${1#*:}
    [ "$p" = "$1" ] && p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
    w=/tmp/catch/$s.$p; mkdir -p "$w/repo"
    git -C /repo archive HEAD | tar -x -C "$w/repo"
    (cd "$w/repo" && git init -q . && git apply "/verif/seeded/$s/patch.diff") || { echo "$s: patch"; return; }
    cp -a --reflink=auto /verif "$w/verif"
    t0=$(date +%s)
    unshare -Urm bash -c "mount --bind $w/repo /repo && mount --bind $w/verif /verif && cd /verif && timeout 900 ./check.sh $p ${TIER:-quick}" >"/tmp/catch/$s.$p.log" 2>&1
    rc=$?
    echo "$s $p rc=$rc $(($(date +%s) - t0))s $(grep -m1 '^VIOLATION' "/tmp/catch/$s.$p.log")"
    rm -rf "$w"
}
export -f one
mkdir -p /tmp/catch
printf '%s\n' "$@" | xargs -P "$jobs" -I{} bash -c 'one {}'
