#!/usr/bin/env python3
"""summary of the last replay file of a property: violations per key"""
import json, sys, collections
d = json.load(open("/verif/evidence/replay/%s.json" % sys.argv[1]))
c = collections.Counter(x["key"] for x in d)
for k, n in c.most_common(): print(n, k)
