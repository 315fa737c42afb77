#!/usr/bin/env python3
"""plant.py [--notests] <seed id>...: confirm planted bugs in scratch copies of /repo.

For each: patch applies, builds, stable tests pass, demo 0 without / nonzero with it, and what the property's check says."""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
SEEDED = "/verif/seeded"
ENV = dict(os.environ, LC_ALL="C.UTF-8")


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    return p.returncode, p.stdout


def one(sid, tests):
    src = os.path.join(SEEDED, sid)
    d = tempfile.mkdtemp(prefix="plant-%s-" % sid, dir="/tmp")
    res = [sid]
    try:
        repo = d + "/repo"
        sh(["cp", "-a", "/repo", repo])
        rc, out = sh(["git", "-C", repo, "apply", src + "/patch.diff"])
        if rc:
            return sid, "PATCH DOES NOT APPLY " + out[-300:]
        demo = d + "/demo"
        shutil.copytree(src, demo)
        for f in os.listdir(demo):
            if f == "meta.json" or f.endswith(".diff"):
                os.unlink(os.path.join(demo, f))
        good = d + "/good"
        sh(["cp", "-a", "/repo", good])
        r0, o0 = sh(["bash", demo + "/demo.sh"], cwd=good, timeout=300)
        r1, o1 = sh(["bash", demo + "/demo.sh"], cwd=repo, timeout=300)
        res.append("demo %d/%d%s" % (r0, r1, "" if r0 == 0 and r1 != 0 else " BAD-DEMO " + o0[-300:] + "|" + o1[-300:]))
        if tests:
            vp = d + "/vp"
            shutil.copytree("/opt/vp", vp, ignore=shutil.ignore_patterns("build", "cache"))
            for f in os.listdir(vp):
                p = os.path.join(vp, f)
                if os.path.isfile(p):
                    try:
                        t = open(p).read()
                    except UnicodeDecodeError:
                        continue
                    open(p, "w").write(t.replace("/repo", repo).replace("/opt/vp/run_functional", vp + "/run_functional").replace("/opt/vp/check_build", vp + "/check_build"))
            rb, ob = sh(["bash", vp + "/build.sh"])
            rt, ot = sh(["bash", vp + "/test.sh", d + "/out.json"])
            j = json.load(open(d + "/out.json"))
            stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            bad = sorted(set(stable) - set(j["passed"]))
            res.append("build %d tests %s" % (rb, "ok" if not bad else "FAIL %s" % bad[:5]))
        prop = json.load(open(src + "/meta.json"))["property"]
        rc, out = sh(["bash", "/verif/check.sh", prop, "quick"], env=dict(ENV, VERIF_REPO=repo))
        v = [l for l in out.splitlines() if l.startswith("VIOLATION")]
        first = [l for l in out.splitlines() if "violation:" in l][:1]
        res.append("check %s rc=%d %s" % (prop, rc, "CAUGHT " + (first[0][:160] if first else "") if rc == 1 and v else "MISSED " + out[-300:] if rc != 0 else "MISSED"))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return sid, "; ".join(res[1:])


args = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(SEEDED))
with ThreadPoolExecutor(3) as pool:
    for sid, r in pool.map(lambda s: one(s, "--notests" not in sys.argv), args):
        print(sid, "::", r, flush=True)
