#!/usr/bin/env python3
# Rewrites the table of planted bugs in DESIGN.md (development only, no check runs this).
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(os.path.join(root, "tools", "caught.json")))
rows = ["<!-- seeded:begin -->", "| Planted bug | Property | Needs | Caught by the quick check |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(f)); m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"], caught.get(i, "yes")))
rows.append("<!-- seeded:end -->")
d = os.path.join(root, "DESIGN.md"); s = open(d).read()
t = "\n".join(rows)
if "SEEDED_TABLE" in s:
    s = s.replace("SEEDED_TABLE", t)
else:
    s = re.sub(r"<!-- seeded:begin -->.*?<!-- seeded:end -->", lambda _: t, s, flags=re.S)
open(d, "w").write(s)
