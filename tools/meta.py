#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/meta.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contract-based deductive verification of the extracted C functions (own VC generator; z3, cvc5, rational-function normaliser)"
P = []
def prop(id, title, statement, text, why, files, mech, claimed=True, level="proof", note="", na="", observe=(), over=("inputs",), tech=TECH):
    P.append(dict(id=id, title=title, statement=statement, text=text, why=why, files=files, mech=mech, claimed=claimed, level=level, note=note, na=na, observe=list(observe), over=list(over), tech=tech))
exec(open(os.path.join(V, "tools", "props.py")).read())
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
M = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": [], "notes": "checks/run.py <id> extracts the functions under contract from /repo's working tree on every run; see DESIGN.md"}
for p in P:
    if p["claimed"]:
        M["checks"].append({"property": p["id"], "quick_cmd": "python3-vt checks/run.py " + p["id"], "thorough_cmd": "VERIF_TIER=thorough python3-vt checks/run.py " + p["id"],
                            "evidence_file": "evidence/%s.json" % p["id"], "technique": p["tech"], "level": p["level"], "level_note": p["note"]})
    else: M["not_applicable"].append({"property": p["id"], "reason": p["na"]})
json.dump(M, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
