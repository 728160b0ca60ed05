#!/bin/bash
# bug.sh ID PID [args]: run one check against one planted bug
cd "$(dirname "$0")/.." || exit 2
git -C /repo apply "$PWD/seeded/$1/patch.diff" || exit 2
python3-vt -B run.py "$2" "${@:3}"; rc=$?
git -C /repo checkout -- .
echo "rc=$rc"
