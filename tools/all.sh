#!/bin/bash
# run every check (developer aid): all.sh [quick|thorough] [jobs]
cd "$(dirname "$0")/.." || exit 2
T=${1:-quick}; J=${2:-6}
ls checks/c[0-9][0-9].py | sed 's/.*c\([0-9]*\).py/C\1/' | xargs -P "$J" -I{} sh -c 'python3-vt run.py {} '"$T"' > /tmp/all.{}.log 2>&1; echo "{} rc=$? $(tail -1 /tmp/all.{}.log)"' | sort
