#!/bin/bash
# apply a planted change to /repo, run checks, undo:  tryseed.sh ID CHECK...
id=$1; shift
git -C /repo apply --whitespace=nowarn /verif/seeded/$id/patch.diff || exit 2
for c in "$@"; do python3 /verif/run.py $c quick 2>&1 | cut -c1-400 | tail -4; done
git -C /repo checkout -q -- .
