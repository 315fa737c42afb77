#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/props.py."""
import json, os, re, sys
HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HOME, "tools"))
from props import PROPS, NOT_APPLICABLE

def main():
    with open(os.path.join(HOME, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert re.match(r"^[A-Z][0-9]{2,3}$", p["id"]), p["id"]
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
    checks, na = [], []
    for p in PROPS:
        i = p["id"]
        if i in NOT_APPLICABLE:
            na.append({"property": i, "reason": NOT_APPLICABLE[i]})
        elif not os.path.exists(os.path.join(HOME, "harness", "checks", i.lower() + ".py")):
            na.append({"property": i, "reason": "the specification and its conformance check are not built yet"})
        else:
            checks.append({"property": i, "quick_cmd": "bash check.sh %s quick" % i, "thorough_cmd": "bash check.sh %s thorough" % i,
                           "technique": p["technique"], "level": "model_checking", "level_note": p["level_note"]})
    m = {"version": 1, "setup_cmd": "bash setup.sh",
         "hooks": {"guard": "PYX_VERIF", "enable": "no hooks are needed: the checks observe the public API and the written files", "source_commits": []},
         "checks": checks, "not_applicable": na}
    with open(os.path.join(HOME, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(PROPS), "properties,", len(checks), "checks,", len(na), "not claimed")

main()
