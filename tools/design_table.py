"""Fills the table of planted bugs into DESIGN.md: python tools/design_table.py"""
import glob
import json
import os
import re

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(here + "/seeded/*/")):
    m = json.load(open(d + "meta.json"))
    rows.append("| %s | %s | %s |" % (os.path.basename(d[:-1]), m["property"], " ".join(m["needs"].split())))
p = here + "/DESIGN.md"
s = open(p).read()
t = "All are caught by the check of their property.\n\n| change | caught by | needs |\n|---|---|---|\n" + "\n".join(rows) + "\n"
s = re.sub(r"`seeded/` holds \S+ changes", "`seeded/` holds %d changes" % len(rows), s)
s = re.sub(r"@@TABLE@@|All are caught by the check of their property\.\n\n\|.*?\n(?=\n)", lambda m: t, s, count=1, flags=re.S)
open(p, "w").write(s)
