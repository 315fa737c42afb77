#!/usr/bin/env python3
"""mkseed.py <seed id> <property> <file> : reads from stdin sections separated by lines '=====':
old text ===== new text ===== needs ===== what_it_breaks ===== demo.py;  several edits: 'old =====+ new' repeated by '+++++ <file>'"""
import json, os, subprocess, sys, tempfile
sid, prop, fn = sys.argv[1:4]
parts = sys.stdin.read().split("\n=====\n")
*edits, needs, what, demo = parts
d = "/verif/seeded/" + sid
os.makedirs(d, exist_ok=True)
tmp = tempfile.mkdtemp(prefix="mkseed-", dir="/tmp")
subprocess.check_call(["cp", "-a", "/repo", tmp + "/repo"])
assert len(edits) % 2 == 0
for i in range(0, len(edits), 2):
    old, new = edits[i].strip("\n"), edits[i + 1].strip("\n")
    f = fn
    if old.startswith("FILE "):
        f, old = old[5:].split("\n", 1)
    p = tmp + "/repo/" + f
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, "w").write(s.replace(old, new))
diff = subprocess.run(["git", "-C", tmp + "/repo", "diff"], stdout=subprocess.PIPE).stdout
subprocess.check_call(["rm", "-rf", tmp])
open(d + "/patch.diff", "wb").write(diff)
open(d + "/demo.py", "w").write(demo.strip("\n") + "\n")
open(d + "/demo.sh", "w").write('#!/bin/bash\n# run with cwd = the repository\nhere=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 PYXRC=/opt/vp/pyxrc PATH=/opt/venv/bin:$PATH LC_ALL=C.UTF-8\ntmp=$(mktemp -d) || exit 2\ntrap \'rm -rf "$tmp"\' EXIT\ncd "$tmp" && /opt/venv/bin/python "$here/demo.py"\n')
json.dump(dict(property=prop, needs=needs.strip(), what_it_breaks=what.strip()), open(d + "/meta.json", "w"), indent=1)
print(sid, len(diff))
