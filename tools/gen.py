#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below (run after editing them)."""
import json, os, sys
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []   # properties
CL = {}  # claimed: id -> (technique, level_note)
NA = {}  # id -> reason

def prop(id, title, statement, over, text, why, files, mech, observe=None, claim=None, na=None):
    assert len(title) <= 80, (id, len(title))
    e = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if observe: e["anchors"]["observe_at"] = observe
    P.append(e)
    if claim: CL[id] = claim
    elif na: NA[id] = na
    else: NA[id] = "no check has been built for it yet"

exec(open(os.path.join(D, "tools", "props.py")).read())

ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
with open(os.path.join(D, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "./run.sh --build", "checks": [], "not_applicable": []}
for p in P:
    i = p["id"]
    if i in CL:
        t, n = CL[i]
        m["checks"].append({"property": i, "quick_cmd": "./run.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + i,
                            "technique": t, "level": "other", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": NA[i]})
m["notes"] = "Every check is decided by /verif/checker, a static analyser that type-checks /repo's working tree, builds SSA and decides the rule for the property; nothing of /repo is executed. See DESIGN.md."
with open(os.path.join(D, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
print(len(P), "properties,", len(m["checks"]), "claimed")
