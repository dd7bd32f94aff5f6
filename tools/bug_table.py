#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(here, "DESIGN.md")
head = open(p).read().split("| bug | ")[0]
rows = ""
files = sorted(glob.glob(os.path.join(here, "seeded/*/meta.json")))
for f in files:
    m = json.load(open(f))
    rows += "| %s | %s | %s |\n" % (os.path.basename(os.path.dirname(f)), m["property"], " ".join(m["needs"].split()).replace("|", "/"))
import re
head = re.sub(r"holds \d+ changes", "holds %d changes" % len(files), head)
open(p, "w").write(head + "| bug | caught by | needs |\n|---|---|---|\n" + rows)
