#!/usr/bin/env python3
"""Rewrites the planted-bug table at the end of DESIGN.md."""
import glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(HERE + "/tools/seeded_results.json"))
L = ["<!-- table -->", "", "| planted bug | needs, to manifest | what it breaks | reported by (seed 1, quick) |", "|---|---|---|---|"]
for p in sorted(glob.glob(HERE + "/seeded/*")):
    i = os.path.basename(p)
    m = json.load(open(p + "/meta.json"))
    r = res.get(i)
    by = "not run" if not r else "**missed**" if r["rc"] != 1 else "%s, %s" % (m["property"], " ".join(r["by"].split(":")[0].split()[:2]))
    L.append("| %s | %s | %s | %s |" % (i, m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/"), by))
s = open(HERE + "/DESIGN.md").read()
s = s.split("<!-- table -->")[0].rstrip() + "\n\n" + "\n".join(L) + "\n"
open(HERE + "/DESIGN.md", "w").write(s)
