"""Mutation sweep (developer aid): make small edits of every source file, keep those that pass the whole test suite, and see which
checks notice them.

usage: sweep.py gen OUT.json [N per file] [seed]     edits that survive the tests
       sweep.py run OUT.json [jobs]                  run the checks concerned on each survivor
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("SWEEP_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SWAPS = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.Mod: "-"}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}
NAMES = {"sin": "cos", "cos": "sin", "radians": "degrees", "degrees": "radians", "asin": "acos", "lat": "lon", "lon": "lat",
         "lat1": "lat2", "lat2": "lat1", "lon1": "lon2", "lon2": "lon1", "xp": "yp", "yp": "xp", "x": "y", "y": "x", "semimajor_axis":
         "semiminor_axis", "semiminor_axis": "semimajor_axis", "eccentricity": "thirdflattening", "sqrt": "abs"}


def span(src, starts, n):
    return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset


def mutants(src):
    tree = ast.parse(src)
    b = src.encode()
    starts = [0]
    for line in b.splitlines(keepends=True):
        starts.append(starts[-1] + len(line))
    out = []

    def rep(n, text, kind):
        s, e = span(b, starts, n)
        out.append((s, e, text, kind, n.lineno))

    def seg(n):
        s, e = span(b, starts, n)
        return b[s:e].decode()
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AnnAssign, ast.arg)):
            for a in ([n.returns] if isinstance(n, ast.FunctionDef) else [n.annotation]):
                if a is not None:
                    skip |= {id(x) for x in ast.walk(a)}
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                rep(n, str(not v), "bool")
            elif isinstance(v, int):
                rep(n, str(v + 1), "int")
                if v > 2:
                    rep(n, str(v - 1), "int")
            elif isinstance(v, float):
                rep(n, repr(v * 1.0001 if v else 1e-6), "float")
                rep(n, repr(v * 1.1 if v else 1e-6), "float")
        elif isinstance(n, ast.BinOp) and type(n.op) in SWAPS:
            l, r = seg(n.left), seg(n.right)
            rep(n, f"({l}) {SWAPS[type(n.op)]} ({r})", "binop")
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            rep(n, f"{seg(n.left)} {CMP[type(n.ops[0])]} {seg(n.comparators[0])}", "cmp")
            rep(n, f"not ({seg(n)})", "not")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            rep(n, f"({seg(n.operand)})", "neg")
        elif isinstance(n, ast.BoolOp):
            j = " or " if isinstance(n.op, ast.And) else " and "
            rep(n, "(" + j.join(seg(v) for v in n.values) + ")", "boolop")
        elif isinstance(n, ast.Call):
            if n.keywords and all(k.arg for k in n.keywords):
                for k in n.keywords:
                    args = [seg(a) for a in n.args] + [f"{q.arg}={seg(q.value)}" for q in n.keywords if q is not k]
                    rep(n, f"{seg(n.func)}({', '.join(args)})", "drop-kw")
            if len(n.args) >= 2:
                args = [seg(a) for a in n.args]
                i = len(args) - 2
                args[i], args[i + 1] = args[i + 1], args[i]
                rep(n, f"{seg(n.func)}({', '.join(args + [f'{q.arg}={seg(q.value)}' if q.arg else '**' + seg(q.value) for q in n.keywords])})", "swap-args")
                if len(n.args) >= 3:
                    rep(n, f"{seg(n.func)}({', '.join([seg(a) for a in n.args[:-1]] + [f'{q.arg}={seg(q.value)}' if q.arg else '**' + seg(q.value) for q in n.keywords])})", "drop-arg")
        elif isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
            nm = n.id if isinstance(n, ast.Name) else n.attr
            if nm in NAMES:
                rep(n, (seg(n)[:-len(nm)]) + NAMES[nm], "name")
        elif isinstance(n, ast.Return) and isinstance(n.value, ast.Tuple) and len(n.value.elts) > 1:
            e = [seg(a) for a in n.value.elts]
            e[0], e[1] = e[1], e[0]
            rep(n, "return " + ", ".join(e), "swap-ret")
        elif isinstance(n, (ast.AugAssign, ast.Expr, ast.Raise)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            rep(n, "pass", "drop-stmt")
    return b, out


def tests(d, venv):
    env = dict(os.environ, PYTHONPATH=f"{d}/src", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", LANG="C.UTF-8", TZ="UTC",
               XDG_CONFIG_HOME="/opt/vp/xdg/config", XDG_CACHE_HOME="/opt/vp/xdg/cache")
    env.pop("PYTEST_ADDOPTS", None)
    try:
        r = subprocess.run([f"/opt/{venv}/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=60"], cwd=d, env=env,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=200)
    except subprocess.TimeoutExpired:
        return False
    return r.returncode == 0


def apply(d, m):
    p = f"{d}/src/pymap3d/{m['file']}"
    b = open(f"{REPO}/src/pymap3d/{m['file']}", "rb").read()
    open(p, "wb").write(b[:m["s"]] + m["text"].encode() + b[m["e"]:])
    return p


def gen(out, per, seed):
    rnd = random.Random(seed)
    todo = []
    for root, _, files in os.walk(f"{REPO}/src/pymap3d"):
        if "tests" in root:
            continue
        for f in sorted(files):
            if not f.endswith(".py"):
                continue
            rel = os.path.relpath(os.path.join(root, f), f"{REPO}/src/pymap3d")
            src = open(os.path.join(root, f)).read()
            b, ms = mutants(src)
            rnd.shuffle(ms)
            k = 0
            for s, e, t, kind, line in ms:
                if b[s:e].decode() == t:
                    continue
                try:
                    compile(b[:s] + t.encode() + b[e:], rel, "exec")
                except SyntaxError:
                    continue
                todo.append(dict(file=rel, s=s, e=e, old=b[s:e].decode(), text=t, kind=kind, line=line))
                k += 1
                if k >= per:
                    break
    print(len(todo), "edits", flush=True)
    live = []

    def one(m):
        d = tempfile.mkdtemp(prefix="sweep.", dir="/tmp")
        try:
            for n in ("src", "pyproject.toml", "Examples", "scripts"):
                if os.path.isdir(f"{REPO}/{n}"):
                    shutil.copytree(f"{REPO}/{n}", f"{d}/{n}")
                elif os.path.exists(f"{REPO}/{n}"):
                    shutil.copy(f"{REPO}/{n}", d)
            apply(d, m)
            if tests(d, "venv-stdlib") and tests(d, "venv"):
                live.append(m)
                print(m["file"], m["line"], m["kind"], repr(m["old"][:60]), "->", repr(m["text"][:60]), flush=True)
        finally:
            shutil.rmtree(d)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, todo))
    json.dump(live, open(out, "w"), indent=0)
    print(len(live), "survive")


def run(out, jobs, pids=None):
    live = json.load(open(out))
    allp = sorted("C" + c[1:3] for c in os.listdir(f"{HERE}/checks") if c[0] == "c" and c[1:3].isdigit())
    order = "C18 C13 C03 C04 C01 C02 C19 C12 C24 C20 C23 C15 C14 C26 C07 C05 C06 C17 C21 C10 C09 C11 C25 C16 C08 C22".split()
    only = {"C08": "karney vincenty ellipsoid rcurve latitude mathfun", "C25": "lox latitude rsphere rcurve mathfun", "C17": "__main__",
            "C14": "earth_orientation eci sidereal timeconv aer", "C15": "earth_orientation sidereal timeconv", "C26": "los mathfun ecef aer enu",
            "C07": "latitude ellipsoid rcurve mathfun", "C06": "ecef ellipsoid mathfun", "C20": "nvector mathfun", "C23": "rsphere rcurve ellipsoid mathfun",
            "C24": "haversine mathfun azelradec vallado sidereal"}
    assert set(order) == set(allp)

    def one(m):
        d = tempfile.mkdtemp(prefix="sweep.", dir="/tmp")
        got = []
        try:
            shutil.copytree(f"{REPO}/src", f"{d}/src")
            shutil.copy(f"{REPO}/pyproject.toml", d)
            apply(d, m)
            for p in (pids or [q for q in order if q not in only or m["file"][:-3] in only[q].split()]):
                try:
                    r = subprocess.run(["python3-vt", "-B", f"{HERE}/run.py", p, "quick"], cwd=HERE, env=dict(os.environ, PMS_REPO=d, PMS_NOEVIDENCE="1"),
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    rc = "timeout"
                if rc != 0:
                    got.append(f"{p}:{rc}")
                    if rc == 1:
                        break
        finally:
            shutil.rmtree(d)
        m["got"] = got
        print("CAUGHT" if any(g.endswith(":1") for g in got) else "MISSED", m["file"], m["line"], m["kind"], repr(m["old"][:70]), "->", repr(m["text"][:70]), got, flush=True)
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, live))
    json.dump(live, open(out, "w"), indent=0)


if __name__ == "__main__":
    if sys.argv[1] == "gen":
        gen(sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 20, int(sys.argv[4]) if len(sys.argv) > 4 else 1)
    else:
        run(sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 4, sys.argv[4].split(",") if len(sys.argv) > 4 else None)
