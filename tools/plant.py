"""Plant bugs: for each entry write seeded/<id>/ and confirm that the change applies, builds, passes the stable tests, that the
demonstration fails with it and passes without it, and say what the property's own quick check and (with --all) every check report.

usage: plant.py BUGS.py [--all] [id ...]

BUGS.py defines BUGS, a list of dicts: id, property, edits [(file, old, new)], demo (python text), needs, breaks.
"""
import json
import os
import runpy
import subprocess
import sys

REPO = "/repo"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = """#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=src PYTHONDONTWRITEBYTECODE=1
exec {py} "$here/demo.py"
"""


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    every = "--all" in sys.argv
    bugs = runpy.run_path(args[0])["BUGS"]
    want = args[1:]
    for b in bugs:
        if want and b["id"] not in want:
            continue
        assert sh("git status --porcelain", cwd=REPO).stdout == "", "dirty repo"
        d = f"{HERE}/seeded/{b['id']}"
        os.makedirs(d, exist_ok=True)
        py = b.get("py", "/opt/venv/bin/python")
        open(f"{d}/demo.py", "w").write(b["demo"].strip() + "\n")
        open(f"{d}/demo.sh", "w").write(SH.format(py=py))
        os.chmod(f"{d}/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        msg = []
        r = sh(f"bash {d}/demo.sh", cwd=REPO)
        msg.append("demo-clean " + ("ok" if r.returncode == 0 else f"BAD rc={r.returncode} {r.stderr[-300:]}"))
        try:
            for file, old, new in b["edits"]:
                p = f"{REPO}/src/pymap3d/{file}"
                s = open(p).read()
                k = b.get("count", 1)
                assert s.count(old) == k, f"{b['id']}: {file}: {s.count(old)} matches"
                open(p, "w").write(s.replace(old, new))
            open(f"{d}/patch.diff", "w").write(sh("git diff", cwd=REPO).stdout)
            r = sh("bash /opt/vp/test.sh /tmp/plant.json")
            base = json.load(open("/opt/vp/BASELINE.json"))
            names = base["stable"]
            got = json.load(open("/tmp/plant.json"))
            passed = set(got["passed"])
            miss = [n for n in names if n not in passed]
            msg.append("tests ok" if not miss else f"TESTS FAIL {len(miss)} {miss[:3]}")
            r = sh(f"bash {d}/demo.sh", cwd=REPO)
            msg.append("demo-bug ok" if r.returncode != 0 else "DEMO PASSES WITH BUG")
            msg.append((r.stderr.strip().splitlines() or ["-"])[-1][:120])
            pids = [b["property"]]
            if every:
                pids = [f"C{c[1:3]}" for c in sorted(os.listdir(f"{HERE}/checks")) if c[0] == "c" and c.endswith(".py")]
            ps = {p: subprocess.Popen(["python3-vt", "-B", f"{HERE}/run.py", p, "quick"], cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for p in pids}
            for p, q in ps.items():
                out = q.communicate()[0]
                v = [x for x in out.splitlines() if x.startswith("VIOLATION")]
                if every and q.returncode == 0:
                    continue
                msg.append(f"{p} rc={q.returncode} {len(v)} violations {v[0][:100] if v else ''}")
        finally:
            sh("git checkout -- .", cwd=REPO)
        print(b["id"], b["property"], "|", " | ".join(msg), flush=True)


main()
