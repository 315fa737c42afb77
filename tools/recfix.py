#!/usr/bin/env python3
"""records fix commits of /repo which KNOWN_FINDINGS.txt does not list yet: recfix.py subject-part=PROPERTY ..."""
import subprocess, sys
f = "/verif/KNOWN_FINDINGS.txt"
known = open(f).read()
for line in reversed(subprocess.run(["git", "-C", "/repo", "log", "--oneline", "fc95f24..HEAD"], capture_output=True, text=True).stdout.splitlines()):
    h, s = line.split(" ", 1)
    if h in known or not s.startswith("fix:"):
        continue
    p = [a.split("=")[1] for a in sys.argv[1:] if a.split("=")[0] in s]
    print(h, s, p or "NO PROPERTY")
    if p:
        with open(f, "a") as out:
            out.write("fixed: property=%s %s %s\n" % (p[0], h, s))
