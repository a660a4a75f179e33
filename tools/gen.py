#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E = "ebi/src/"
def p(id, title, statement, over, text, why, files, mech, observe, note, technique="explicit enumeration of a bounded space of executions of the real crate, checked against a reference model"):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=[f if f.startswith("/") else (f if "/" in f and not f.startswith("+") else f) for f in files],
                             mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe),
                note=note, technique=technique)
PROPS = []
NA = []
exec(open(os.path.join(V, "tools", "props.py")).read())
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for q in PROPS:
        f.write(json.dumps({k: q[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
    for q, _ in NA:
        f.write(json.dumps({k: q[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
man = dict(version=1, setup_cmd="bash setup.sh",
    hooks=dict(guard="cargo feature ffi_alp of ebi (on by default) turned off", enable="--no-default-features",
               source_commits=["f63aee341f973d63e344ee00b4ace50306c71871"]),
    checks=[dict(property=q["id"], quick_cmd=f"./check.sh {q['id']} quick", thorough_cmd=f"./check.sh {q['id']} thorough",
                 technique="model checking: " + q["technique"], level="model_checking", level_note=q["note"]) for q in PROPS],
    not_applicable=[dict(property=q["id"], reason=r) for q, r in NA],
    notes="check.sh builds mc/ or xp/ against /repo's working tree and explores one property; known_findings.txt lists open and fixed defects; evidence/<id>.json is rewritten by every run.")
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
