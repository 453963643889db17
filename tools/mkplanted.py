#!/usr/bin/env python3
"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(V + "/DESIGN.md").read()
head = d[:d.index("## Planted bugs")]
rows = []
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    j = json.load(open(m))
    rows.append("| %s | %s | %s | %s | %s |" % (m.split("/")[-2], j["property"], j["needs"], j["what_it_breaks"], j.get("caught", "quick, seed 1")))
txt = """## Planted bugs
Each was written from a property and the code, kept only after its demonstration failed with it and passed without it and the
stable tests passed, and run against the quick check of its property. Where a check missed one at first, the generator or the
oracle was strengthened until it was caught for a reason that is not special to it (noted in the history of /verif). Variants
rejected because the stable tests catch them: s03, s05, s10b, s12, s15, s17, t03b, t10b, v03, v09 and the float variants of u13.

| id | property | needs | breaks | caught by |
|---|---|---|---|---|
""" + "\n".join(rows) + "\n"
open(V + "/DESIGN.md", "w").write(head + txt)
