"""Writes the table of planted bugs into DESIGN.md."""
import json
import os
import re

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
seeds = os.path.join(here, "seeded")
for d in sorted(os.listdir(seeds)):
    m = json.load(open(os.path.join(seeds, d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"], m["property"]))
path = os.path.join(here, "DESIGN.md")
text = open(path).read()
table = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
if "SEEDTABLE" in text:
    text = text.replace("SEEDTABLE", table)
else:
    text = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: table, text, flags=re.S)
open(path, "w").write(text)
