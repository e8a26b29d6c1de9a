#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import props

TECH = ("static analysis: global value numbering of all paths, compared "
        "with reference definitions by randomised interpretation of value "
        "graphs")
EXTRA = {"effects": " + interprocedural effect (mutation) analysis",
         "radius": " + constant/provenance lint for the radius"}

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in props.P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [
                {"name": a, "where": b} for a, b in p["mech"]],
                "hook_needed": None}}) + "\n")
    for i, t, s, _ in props.NOT_APPLICABLE:
        f.write(json.dumps({
            "id": i, "title": t, "statement": s,
            "quantifier": {"over": ["inputs"], "text": "every model, phase, "
                           "depth and distance"},
            "why_tests_cant": "tests compare a few values for two models",
            "anchors": {"files": ["taupy/SlownessModel.py",
                                  "taupy/SeismicPhase.py"],
                        "mechanism": [{"name": "whole computation",
                                       "where": "taupy"}]}}) + "\n")

checks = []
for p in props.P:
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
        "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
        "technique": TECH + "".join(EXTRA.get(a, "") for a in p["analyses"]),
        "level": "other",
        "level_note":
            "Decides, from the source alone, that the listed functions "
            "compute what their reference definitions say, on every path "
            "(loops by relating their bodies). A difference is reported "
            "only with a witness interpretation; equality holds up to the "
            "negligible chance of randomised identity testing, over real "
            "arithmetic. Undecided components are counted in the evidence "
            "and raise no alarm." + (" " + p["note"] if p["note"] else ""),
    })
doc = {"version": 1, "setup_cmd": "python3 -m compileall -q sa specs",
       "checks": checks,
       "not_applicable": [{"property": i, "reason": r}
                          for i, _, _, r in props.NOT_APPLICABLE],
       "notes": "See DESIGN.md; known_findings.txt lists findings."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
