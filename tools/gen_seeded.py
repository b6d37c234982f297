#!/usr/bin/env python3
"""Prints the table of planted bugs of DESIGN.md (between its two markers) from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for p in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(p))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(p)), m["property"], m["what_it_breaks"]))
t = "<!-- seeded -->\n| change | caught by the quick check of | what it breaks |\n|---|---|---|\n" + "\n".join(rows) + "\n<!-- /seeded -->"
d = open(root + "/DESIGN.md").read()
open(root + "/DESIGN.md", "w").write(re.sub(r"<!-- seeded -->.*<!-- /seeded -->", lambda _: t, d, flags=re.S))
