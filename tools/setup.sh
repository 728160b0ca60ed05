#!/bin/sh
# nothing to build: the analyser is plain Python run by python3-vt; fail early if that is missing
exec python3-vt -c "import sympy, mpmath, networkx; print('ok')"
