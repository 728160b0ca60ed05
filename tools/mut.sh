#!/bin/bash
# try an edit in a scratch copy: mut.sh PID FILE OLD NEW [TIER]   (python string literals OLD/NEW, first occurrence)
set -e
d=$(mktemp -d /tmp/mut.XXXXXX)
trap 'rm -rf "$d"' EXIT
cp -a /repo/src /repo/pyproject.toml "$d"/
python3 - "$d/src/pymap3d/$2" "$3" "$4" <<'P'
import sys
p, a, b = sys.argv[1:]
a, b = a.encode().decode("unicode_escape"), b.encode().decode("unicode_escape")
s = open(p).read()
assert a in s, "not found"
open(p, "w").write(s.replace(a, b, 1))
P
cd /verif && PMS_REPO="$d" python3-vt run.py "$1" "${5:-quick}" | cut -c1-300 | grep -v "^UNDEC" | tail -8
