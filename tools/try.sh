#!/bin/bash
# try.sh SEEDED_ID CHECK...   apply a planted bug to /repo, run checks, undo
id=$1; shift
git -C /repo apply /verif/seeded/$id/patch.diff || exit 9
trap 'git -C /repo checkout -q -- .' EXIT
for c in "$@"; do python3 /verif/run.py $c > /tmp/try.$c.log 2>&1; echo "$id $c rc=$?"; grep -m1 -A1 ^VIOL /tmp/try.$c.log | tail -1 | cut -c1-200; done
