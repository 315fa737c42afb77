#!/usr/bin/env python3
"""matrix.py [plant log...]: writes the table of planted bugs into DESIGN.md (between the marks)"""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for sid in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % sid))
    f = re.findall(r"^\+\+\+ b/(\S+)", open(V + "/seeded/%s/patch.diff" % sid).read(), re.M)
    rows.append("| %s | %s | %s | %s |" % (sid, m["property"], ", ".join(x.replace("pyx/", "") for x in f), m["what_it_breaks"].replace("|", "/").replace("\n", " ")))
t = "\n".join(["<!-- matrix -->", "| planted bug (caught by the quick check of) | property | file | what it breaks |", "|---|---|---|---|"] + rows + ["<!-- /matrix -->"])
p = V + "/DESIGN.md"
s = open(p).read()
if "<!-- matrix -->" in s:
    s = re.sub(r"<!-- matrix -->.*<!-- /matrix -->", lambda m: t, s, flags=re.S)
else:
    s = s.rstrip() + "\n\n## Planted bugs\n\nEach was confirmed in a scratch copy (`tools/plant.py`: stable tests pass, demonstration 0/1) and is caught by the check of its property.\n\n" + t + "\n"
open(p, "w").write(s)
