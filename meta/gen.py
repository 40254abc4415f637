#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below (run by hand when a property is added)."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, NA = [], []


def P(id, title, statement, over, text, why, files, mech, bounds, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = state
    PROPS.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a), bounds))


def N(id, reason, **kw):
    NA.append((id, reason))


exec(open(os.path.join(HERE, "meta", "table.py")).read())

TECH = "symbolic execution of the jaxpr of the real code; z3 (SMT) decides over all inputs within bounds; counterexamples replayed on the real code"
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p, _ in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
man = dict(
    version=1,
    setup_cmd="/opt/venv/bin/python check.py --selftest",
    checks=[dict(property=p["id"], quick_cmd=f"/opt/venv/bin/python check.py {p['id']} quick",
                 thorough_cmd=f"/opt/venv/bin/python check.py {p['id']} thorough", technique=TECH, level="other", level_note=b)
            for p, b in PROPS if b],
    not_applicable=[dict(property=i, reason=r) for i, r in NA],
    notes="No hooks in /repo. Every check traces the code of /repo's working tree to jaxprs afresh on every run.",
)
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
