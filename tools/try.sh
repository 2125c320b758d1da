#!/bin/bash
# try.sh SEED CHECK...: run checks against a planted bug, then undo it
cd /verif; s=$1; shift
git -C /repo apply /verif/seeded/$s/patch.diff || exit 9
for c in "$@"; do python3 check.py $c | cut -c1-${W:-300} | head -${L:-8}; done
git -C /repo checkout -- .
