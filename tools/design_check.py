"""DESIGN.md has a section for every property of properties.jsonl."""
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
text = open(os.path.join(here, "DESIGN.md")).read()
missing = [r["id"] for r in map(json.loads, open(os.path.join(here, "properties.jsonl")))
           if "### %s" % r["id"] not in text]
if missing:
    sys.exit("no section for " + ", ".join(missing))
