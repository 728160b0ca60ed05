"""Obligations, verdicts, evidence."""

from __future__ import annotations

import itertools
import json
import os
import time
import traceback

from mpmath import mpf

from . import expr as E
from .domain import Domain
from .equal import FUEL, PROVED, REFUTED, UNKNOWN, decide_cells, generic, prove_eq, refute_eq
from .project import Project
from .session import Missing, Session
from .values import Unsupported

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PMS_REPO", "/repo")
TRACE = os.environ.get("PMS_TRACE")
REL, ABS = mpf(10) ** -10, mpf(10) ** -12


class Check:
    def __init__(self, pid, tier, seed, level, rule, only=None):
        self.pid, self.tier, self.seed, self.level, self.rule = pid, tier, seed, level, rule
        self.t0 = time.time()
        self.limit = float(os.environ.get("PMS_LIMIT", 560 if tier == "quick" else 800))
        self.p = Project(REPO)
        self.sessions = {}
        self.items = []  # (name, verdict, detail)
        self.known = {}
        self.viol = []
        self.only = only
        self.functions = set()
        self.skipped = 0
        kf = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(kf):
            for e in json.load(open(kf)).get("findings", []):
                if e["property"] == pid:
                    self.known[e["key"]] = e["what"]
        self.known_hit = set()
        self.nbox = 30 if tier == "quick" else 200
        self.steps = 3_000_000

    # ------------------------------------------------------------ sessions
    def sess(self, mode="py", **kw):
        k = (mode, tuple(sorted((a, id(b) if callable(b) else b) for a, b in kw.items() if a != "overrides")), id(kw.get("overrides")))
        if k not in self.sessions:
            self.sessions[k] = Session(self.p, mode, **kw)
        return self.sessions[k]

    def out_of_time(self):
        return time.time() - self.t0 > self.limit

    # ------------------------------------------------------------ recording
    def where(self, key):
        """file and line of a function named 'module.function' or 'module.Class.method'"""
        return self.p.locate(key)

    def record(self, name, verdict, detail="", where="", witness=None, how=""):
        self.items.append(
            {"item": name, "verdict": verdict, "detail": detail, "where": where, "how": how, "witness": witness}
        )
        if verdict == REFUTED:
            if name in self.known:
                self.known_hit.add(name)
                print(f"KNOWN-FINDING: property={self.pid} {name}: {self.known[name]}")
            else:
                self.viol.append(self.items[-1])
        return verdict

    def wants(self, name):
        return self.only is None or self.only == name

    def fact(self, name, ok, detail="", where="", witness=None, how="syntactic"):
        if not self.wants(name):
            return None
        v = PROVED if ok is True else REFUTED if ok is False else UNKNOWN
        return self.record(name, v, detail, where, witness, how)

    def eq(self, name, got, want, dom, where="", detail="", rel=REL, ab=ABS, prove=True, n=None, depth=7, fast=False, gen=False, secs=20, lemma=None, record=True):
        """the two value numbers denote the same function on the domain.  gen: prove it for the branch taken
        at ordinary points only (special points are then covered by interval separation).  lemma: a function
        that tries another proof (true when it succeeded).  record: False to leave an undecided result unrecorded"""
        if not self.wants(name):
            return None
        if self.out_of_time() or len(self.viol) >= 40:
            self.skipped += 1
            return self.record(name, UNKNOWN, "not examined (time budget used up, or enough violations found)", where)
        if got is want:
            return self.record(name, PROVED, detail, where, how="same value number")
        n = n or self.nbox
        t0 = time.time()
        k = 1 if self.tier == "quick" else 6
        try:
            boxes = dom.boxes(n)
            FUEL.start(10**9, 8 * k)
            r = refute_eq(got, want, itertools.islice(boxes, 4), rel, ab)
            if not r and prove:
                FUEL.start(self.steps * k, secs * k)
                if gen:
                    (g, w), _ = generic([got, want], dom.ordinary(6))
                    if prove_eq(g, w, depth):
                        FUEL.start(10**9, 6 * k)
                        r = refute_eq(got, want, boxes, rel, ab) or (not fast and refute_eq(got, want, dom.directed([got, want]), rel, ab))
                        if not r:
                            return self.record(name, PROVED, detail, where, how="normal forms equal on the branch of ordinary points; special branches not separated")
                elif prove_eq(got, want, depth):
                    return self.record(name, PROVED, detail, where, how="normal forms equal")
            FUEL.start(10**9, 10 * k)
            if not r:
                r = refute_eq(got, want, boxes, rel, ab)
            if not r and lemma is not None:
                FUEL.start(self.steps * k, secs * k)
                try:
                    how = lemma()
                except (Unsupported, Missing, ValueError, AttributeError, KeyError, TypeError):
                    how = None
                if how:
                    return self.record(name, PROVED, detail, where, how=how)
                FUEL.start(10**9, 10 * k)
            if not r and not fast:
                FUEL.start(10**9, 10 * k)
                r = refute_eq(got, want, dom.directed([got, want]), rel, ab)
        except (RecursionError, MemoryError) as e:
            return self.record(name, UNKNOWN, f"{type(e).__name__}", where)
        finally:
            FUEL.start(1 << 60, 1e9)
            if TRACE and time.time() - t0 > 0.5:
                print(f"  [{time.time() - t0:.1f}s] {name}", flush=True)
        if r:
            box, va, vb = r
            wit = {
                "inputs": {str(k.a[0]): str(getattr(v, "mid", v))[:24] for k, v in box.items()},
                "got": str(va), "expected": str(vb),
                "got expression": E.show(got, 5)[:600], "expected expression": E.show(want, 5)[:600],
            }
            return self.record(name, REFUTED, detail, where, wit, "interval evaluation separates the two")
        if not record:
            return UNKNOWN
        return self.record(name, UNKNOWN, detail, where, how=f"not separated on {n} boxes, no proof")

    def cells(self, name, got, want, sym, where="", detail="", dom=None, **kw):
        """two functions of one variable that changes branch at thresholds, decided on every piece"""
        if not self.wants(name):
            return None
        v, p, g, w = decide_cells(got, want, sym)
        if v == UNKNOWN and dom is not None:
            return self.eq(name, got, want, dom, where, detail, **kw)
        wit = {"inputs": {str(sym.a[0]): str(p)}, "got": E.show(g, 4), "expected": E.show(w, 4)} if p is not None else None
        return self.record(name, v, detail, where, wit, how="every piece between thresholds compared")

    def guarded(self, name, fn, where=""):
        """run fn(); anything the analysis does not model leaves the item undecided"""
        try:
            return fn()
        except Missing as e:
            self.record(name, UNKNOWN, f"not found: {e}", where)
        except Unsupported as e:
            self.record(name, UNKNOWN, f"construct not modelled: {e}", where)
        except Exception as e:  # noqa: BLE001
            if os.environ.get("PMS_DEBUG"):
                traceback.print_exc()
            self.record(name, UNKNOWN, f"analysis gave up: {type(e).__name__}: {e}", where)
        return None

    # ------------------------------------------------------------ end
    def finish(self, explain, extra=None):
        n = len(self.items)
        ok = sum(i["verdict"] == PROVED for i in self.items)
        un = [i for i in self.items if i["verdict"] == UNKNOWN]
        rf = [i for i in self.items if i["verdict"] == REFUTED]
        for i in un:
            print(f"UNDECIDED {i['item']}: {i['detail']} {i['how']} [{i['where']}]")
        rc = 0
        vs = []
        if self.viol:
            d = os.path.join(VERIF, "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f"{self.pid}.json")
            json.dump({"property": self.pid, "rule": self.rule, "violations": self.viol}, open(path, "w"), indent=1)
            for v in self.viol[:20]:
                print(f"  {v['item']}: {v['detail']} [{v['where']}] {v['how']}")
                if v["witness"]:
                    print("    " + json.dumps(v["witness"])[:900])
            print(f"VIOLATION property={self.pid} replay={path}")
            rc = 1
            vs = [f"{v['item']}: {v['detail']} at {v['where']}" for v in self.viol]
        if n and len(un) == n:
            print("no obligation could be decided")
            rc = 2
        how = {}
        for i in self.items:
            if i["verdict"] == PROVED:
                how[i["how"]] = how.get(i["how"], 0) + 1
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": {
                "explanation": explain,
                "obligations": n,
                "discharged": ok,
                "undecided": len(un),
                "violated": len(rf),
                "discharged_by": how,
                "rule": self.rule,
                "functions": sorted({i["where"] for i in self.items if i["where"]}),
                "undecided_items": [i["item"] + ": " + (i["detail"] + " " + i["how"]).strip() for i in un],
                "known_findings": sorted(self.known_hit),
                "samples": [i["item"] for i in self.items[:: max(1, n // 40)]],
                **(extra or {}),
            },
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.viol),
        }
        del vs
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        print(
            f"{self.pid} {self.tier}: {n} obligations, {ok} discharged, {len(un)} undecided, "
            f"{len(rf)} violated ({len(self.known_hit)} known), {time.time() - self.t0:.1f} s"
        )
        return rc
