#!/usr/bin/env python3
"""Write DESIGN.md: design_head.md, the planted changes with the checks that
report them (tools/caught.json), and the obligations of every property."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import props

head = open(os.path.join(HERE, "tools", "design_head.md")).read()
out = [head]
path = os.path.join(HERE, "tools", "caught.json")
caught = json.load(open(path)) if os.path.exists(path) else {}
out.append("Each is in `seeded/<id>/`; it builds, passes the stable tests "
           "and has a demonstration.\n\n| change | property | reported by |\n"
           "|---|---|---|\n")
for n in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", n, "meta.json")))
    out.append("| %s: %s | %s | %s |\n" % (
        n, m["what_it_breaks"].replace("|", "/"), m["property"],
        caught.get(n, "not run")))
out.append("\n## 6. The properties, one by one\n\nQuick runs take 2 to 60 s "
           "each.  `f [x]` restricts an obligation to the components of f "
           "that match x.\n")
for p in props.P:
    out.append("\n### %s %s\n\n%s\n\n*Why not by tests:* %s\n\n" % (
        p["id"], p["title"], p["statement"], p["why"]))
    how = ["value-graph contracts of " + ", ".join(
        "`%s`" % o if isinstance(o, str) else "`%s`%s" % (
            o[0], " [`%s`]" % o[1] if o[1] else "")
        for o in p["obligations"])]
    if "effects" in p["analyses"]:
        how.append("the effect analysis (1.3) over every query entry point")
    if "radius" in p["analyses"]:
        how.append("the radius provenance lint (1.4) over the package")
    out.append("*Decided by:* %s.\n" % "; ".join(how))
    if p["note"]:
        out.append("\n*Note:* %s\n" % p["note"])
out.append("\n### Not applicable\n\n")
for i, t, s, r in props.NOT_APPLICABLE:
    out.append("* **%s %s.** %s\n" % (i, t, r))
with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
    f.write("".join(out))
