#!/usr/bin/env python3
"""writes properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
sys.dont_write_bytecode = True
from props import PROPS, NOT_APPLICABLE
built = {p["id"] for p in PROPS if os.path.exists(os.path.join(V, "checks", p["id"].lower() + ".py")) and not p["na"]}
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]},
        }, ensure_ascii=False) + "\n")
man = {"version": 1, "setup_cmd": "sh tools/setup.sh", "checks": [], "not_applicable": []}
for p in PROPS:
    if p["id"] in built:
        man["checks"].append({
            "property": p["id"],
            "quick_cmd": f"python3-vt run.py {p['id']} quick",
            "thorough_cmd": f"python3-vt run.py {p['id']} thorough",
            "technique": p["technique"],
            "level": "other",
            "level_note": p["note"] or "static: every obligation is an equality or fact about value numbers of the current source; 'discharged' holds for all inputs, 'undecided' obligations are listed and never alarm",
        })
    else:
        man["not_applicable"].append({"property": p["id"], "reason": p["na"] or "check not built yet"})
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
head = open(os.path.join(V, "tools", "design_head.md")).read()
tail = open(os.path.join(V, "tools", "design_tail.md")).read()
mid = []
for p in PROPS:
    mid.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n*How decided.* {p['design']}\n\n" + (f"*Bounds, cost, notes.* {p['note']}\n\n" if p["note"] else "") +
               ("" if p["id"] in built else f"*Not claimed:* {p['na'] or 'check not built yet'}\n\n") + f"*Beyond the tests.* {p['why']}\n")
open(os.path.join(V, "DESIGN.md"), "w").write(head + "\n## Properties\n\n" + "\n".join(mid) + "\n" + tail)
print(len(PROPS), "properties,", len(built), "claimed")
