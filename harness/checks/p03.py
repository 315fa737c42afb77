"""P03: paths are values (spec/PathHist.tla, PathHistMC.tla, PathHistTrace.tla)."""
import json
from vp import guard
import polylib
from polylib import S


def apply(r, vals, o):
    """one operation on real paths"""
    from pyx import path as pm, trafo, unit
    p, q = vals[o["i"] - 1], vals[o["j"] - 1]
    k = o["k"]
    isnorm = not isinstance(p, pm.path)
    if k == "reversed":
        vals.append(p.reversed())
    elif k == "copy":
        vals.append(p.copy() if isnorm else pm.path(*p.pathitems))
    elif k == "norm":
        vals.append(p.copy() if isnorm else p.normpath(epsilon=1e-5))
    elif k == "topath":
        vals.append(p.path() if isnorm else pm.path(*p))
    elif k == "trans":
        m = o["m"]
        vals.append(p.transformed(trafo.trafo_pt(((m[0], m[1]), (m[2], m[3])), (m[4] / S, m[5] / S))))
    elif k == "joined":
        vals.append(p << q if r.random() < 0.5 else p.joined(q))
    elif k == "add":
        vals.append(p + q)
    elif k == "split":
        vals.extend(p.split_pt([x / S for x in o["s"]]))
    elif k == "join":
        p.join(q)
    elif k == "iadd":
        if r.random() < 0.4 and not isnorm:
            p.extend(q.path().pathitems)
        elif r.random() < 0.4 and isnorm:
            p.extend([s.copy() for s in q.normpath().normsubpaths])
        else:
            p += q
            vals[o["i"] - 1] = p
    elif k == "line":
        d = [x / S for x in o["d"]]
        if r.random() < 0.5:
            p.append(pm.rlineto_pt(*d))
        else:
            x, y = p.atend_pt()
            p.append(pm.lineto_pt(x + d[0], y + d[1]))
    elif k == "close":
        p.append(pm.closepath())
    elif k == "sub":
        p.append(pm.moveto_pt(*[x / S for x in o["at"]]))
        p.append(pm.rlineto_pt(*[x / S for x in o["d"]]))
    elif k == "query":
        n = p.normpath()
        l = n.arclen_pt()
        n.at_pt([l / 2, 0])
        n.split_pt([l / 3 + 0.01])
        n.intersect(q.normpath())
        p.bbox(), p.begin(), p.end(), n.curvature_pt([0.01]), n.rotation_pt([0.01]), n.tangent_pt([0.01], 1)
        str(p), str(n)


def look(p):
    return polylib.shape(p)


def items(p):
    """what the items of the path say, without its cache"""
    from pyx import path as pm
    if isinstance(p, pm.path):
        return polylib.shape(pm.path(*p.pathitems))
    return polylib.shape(p.path())


def history(r, start, ops, kinds, curves):
    vals = [polylib.build(r, p, k, curves) for p, k in zip(start, kinds)]
    ev = [dict(k="start", vals=start)]
    for o in ops:
        e = dict(o, failed="")
        x = guard(apply, r, vals, o, seconds=5)
        if x.ok:
            x = guard(lambda: ([look(p) for p in vals], [items(p) for p in vals]))
        if x.ok:
            e["got"], e["items"] = x.value
        else:
            e["failed"] = str(x.exc)
        ev.append(e)
        if not x.ok:
            break
    return dict(ev=ev, kinds=kinds)


def run(ctx):
    r = ctx.rng
    traces = []
    cases = []
    res = ctx.model_check("PathHistMC", constants=dict(MaxOps=2), invariants=["Sound", "Emit"], properties=["Values"], label="all histories of two operations", heap="8g")
    cases += [json.loads(x[1:]) for x in res.prints]
    ctx.note(histories=len(cases))
    k = ctx.n(1500, 10000)
    for c in (cases if len(cases) <= k else r.sample(cases, k)):
        traces.append(history(r, c["start"], c["ops"], [r.choice(["path", "normpath"]) for i in "ab"], r.choice([0, 0, 0.3])))
    depth = ctx.n(4, 5)
    res = ctx.tlc("PathHistMC", constants=dict(MaxOps=depth), invariants=["Sound", "Emit"], label="random histories of %d operations" % depth, heap="8g",
                  simulate=ctx.n(60, 600), depth=depth + 2)
    # TLC evaluates the invariants for all successors on its way
    seen = sorted(set(res.prints))
    k = ctx.n(1500, 15000)
    for x in seen if len(seen) <= k else r.sample(seen, k):
        c = json.loads(x[1:])
        traces.append(history(r, c["start"], c["ops"], [r.choice(["path", "normpath"]) for i in "ab"], r.choice([0, 0, 0.3])))

    def key(t, l, why):
        e = t["ev"][l - 1]
        return "value:%s:%s:%s%s" % (e["k"], why, e.get("failed", "")[:60], ":itself" if e["i"] == e["j"] and e["k"] in ("join", "iadd", "joined", "add") else "")

    def describe(t, l, why):
        return "%s after %s on %s %s" % (why, [(e["k"], e["i"], e["j"]) for e in t["ev"][1:l]], t["kinds"], json.dumps(t["ev"][l - 1])[:600])
    ctx.validate("PathHistTrace", traces, key=key, describe=describe, heap="12g", chunk=1500)
    ctx.sample({"path": traces[-1]["ev"][:3]})
