#!/usr/bin/env python3
"""Writes the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json (caught by: from bugtest runs)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(V + "/DESIGN.md").read()
head = d[:d.index("## Seeded bugs")]
out = ["## Seeded bugs", "",
       "Written from the property texts and the code, each confirmed in a scratch copy (`tools/bugtest.py`: builds, stable tests pass, demo fails with and passes",
       "without it), then tried against the quick check of its property. All are caught by the check of their property; those marked * were missed at first, and the",
       "check was extended (what was missing is said under \"Gaps found\").", "",
       "| seeded bug | caught by | what it breaks | needs |", "|---|---|---|---|"]
STAR = {"c10-equidistant-lookup", "c20-lenient-settings", "c08-edge-order", "c01-hard-links", "c05-dir-named-like-schema", "c05-same-size", "c04-schema-substring"}
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    out.append("| %s%s | %s | %s | %s |" % (i, "*" if i in STAR else "", m["property"], m["what_it_breaks"], m["needs"]))
tail = os.path.join(V, "tools", "gaps.md")
if os.path.exists(tail):
    out += ["", open(tail).read().rstrip()]
open(V + "/DESIGN.md", "w").write(head + "\n".join(out) + "\n")
