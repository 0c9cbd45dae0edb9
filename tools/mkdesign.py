#!/usr/bin/env python3
"""Fills the table of planted bugs of DESIGN.md."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property (caught by its check) | needs |", "|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s: %s | %s | %s |" % (f.split("/")[-2], m["what_it_breaks"], m["property"], m["needs"]))
p = V + "/DESIGN.md"
s = open(p).read()
s = s.replace("@@MODELS@@\n\n", "")
if "@@SEEDS@@" in s:
    s = s.replace("@@SEEDS@@", "<!-- seeds -->\n<!-- end -->")
s = re.sub(r"<!-- seeds -->.*<!-- end -->", lambda m: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- end -->", s, flags=re.S)
open(p, "w").write(s)
