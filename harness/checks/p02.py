"""P02: parameters, arc lengths and positions (spec/Poly.tla, PolyMC.tla, PolyTrace.tla)."""
import json, math
from vp import guard
import polylib
from polylib import S, rd


def pt(p):
    return [rd(p[0]), rd(p[1])]


def lens_of(r, s):
    """arc lengths as numbers of points or as PyX lengths"""
    return [x / S for x in s]


def query(r, p, path, q, s, other=None):
    """one event: the answers of the code"""
    from pyx import unit
    n = p.normpath()
    e = dict(k=q, failed="")
    L = [x / S for x in s]
    if q == "shape":
        e["got"] = polylib.shape(p)
    elif q == "arclen":
        e.update(got=rd(p.arclen_pt()), upper=rd(n.arclen_pt(upper=True)))
        if rd(unit.topt(p.arclen())) != e["got"]:
            e["got"] = -999
    elif q == "ends":
        e.update(first=pt(p.atbegin_pt()), last=pt(p.atend_pt()), atbegin=pt(n.at_pt(n.begin())), atend=pt(n.at_pt(n.end())))
        if pt([unit.topt(x) for x in p.atbegin()]) != e["first"] or pt([unit.topt(x) for x in p.atend()]) != e["last"]:
            e["first"] = [-999, -999]
    elif q == "at":
        mode = r.randrange(3)
        if mode == 0:
            got = p.at_pt(L)
        elif mode == 1:
            got = [p.at_pt(x) for x in L]
        else:
            got = [[unit.topt(c) for c in p.at(x * unit.t_pt)] for x in L]
        params = n.arclentoparam_pt(L) if r.random() < 0.5 else [n.arclentoparam(x * unit.t_pt) for x in L]
        by = n.at_pt(params)
        back = n.paramtoarclen_pt(params) if r.random() < 0.5 else [unit.topt(n.paramtoarclen(x)) for x in params]
        e.update(s=s, got=[pt(x) for x in got], byparam=[pt(x) for x in by], back=[rd(x) for x in back],
                 pos=[[x.normsubpathindex + 1, int(round(1e6 * (x.normsubpathparam or 0)))] for x in params])
    elif q == "dir":
        tans = p.tangent_pt(L, 1) if r.random() < 0.5 else [p.tangent(x * unit.t_pt, unit.t_pt) for x in L]
        trs = p.trafo_pt(L) if r.random() < 0.5 else [p.trafo(x * unit.t_pt) for x in L]
        rots = p.rotation_pt(L) if r.random() < 0.5 else [p.rotation(x * unit.t_pt) for x in L]
        e.update(s=s, point=[pt(t.atbegin_pt()) for t in tans], tip=[pt(t.atend_pt()) for t in tans], trafo=[pt(t.apply_pt(2, 1)) for t in trs], rot=[pt(t.apply_pt(2, 1)) for t in rots], curv=[rd(x) for x in n.curvature_pt(L)])
    elif q == "reversed":
        v = p.reversed()
        e.update(got=polylib.shape(v), s=s, at=[pt(x) for x in v.at_pt(L)])
    elif q == "split":
        m = r.randrange(3)
        ps = p.split_pt(L) if m == 0 else p.split([x * unit.t_pt for x in L]) if m == 1 else n.split([n.arclentoparam_pt(x) for x in L])
        e.update(s=s, got=[polylib.shape(x) for x in ps], lens=[rd(x.arclen_pt()) for x in ps])
    elif q == "joined":
        e.update(other=other, got=polylib.shape(p << polylib.build(r, other, r.choice(["path", "normpath"])) if r.random() < 0.5 else p.joined(polylib.build(r, other))))
    elif q == "added":
        e.update(other=other, got=polylib.shape(p + polylib.build(r, other, "path" if r.random() < 0.5 else "normpath")))
    elif q == "arith":
        a, b = n.arclentoparam_pt(L[0]), n.arclentoparam_pt(L[1])
        lb = L[1] * unit.t_pt
        e.update(s=s, plus=pt(n.at_pt(a + lb)), minus=pt(n.at_pt(a - lb)), rminus=pt(n.at_pt(lb - a)), times=pt(n.at_pt(a * 2 if r.random() < 0.5 else 2 * a)), half=pt(n.at_pt(a / 2)),
                 plusp=pt(n.at_pt(a + b)), minusp=pt(n.at_pt(a - b)), neg=pt(n.at_pt(-a)), lt=bool(a < b), gt=bool(a > b))
    return e


def law(r):
    """answers about a smooth path of one subpath"""
    from pyx import path as pm
    v = [r.uniform(-20, 20) for i in range(2)]
    items = [pm.moveto_pt(*v)]
    for i in range(r.choice([1, 2, 3])):
        x = r.random()
        if x < 0.6:
            items.append(pm.rcurveto_pt(*[r.uniform(-20, 20) for j in range(6)]))
        elif x < 0.8:
            items.append(pm.arc_pt(r.uniform(-9, 9), r.uniform(-9, 9), r.uniform(1, 9), r.uniform(0, 360), r.uniform(0, 360)))
        else:
            items.append(pm.rlineto_pt(r.uniform(-9, 9), r.uniform(1, 9)))
    p = pm.path(*items)
    n = p.normpath()
    if r.random() < 0.3:
        p = n
    t = n.arclen_pt()
    s = sorted(r.uniform(0.05, 0.95) * t for i in range(r.choice([1, 2, 3])))
    ps = p.split_pt(s)
    v = n.reversed()
    params = n.arclentoparam_pt(s)
    tan, rtan = n.tangent_pt(s, 1), v.tangent_pt([t - x for x in s], -1)
    return dict(k="law", failed="", total=rd(t), upper=rd(n.arclen_pt(upper=True)), s=[rd(x) for x in s], back=[rd(x) for x in n.paramtoarclen_pt(params)], lens=[rd(x.arclen_pt()) for x in ps],
                at=[pt(x) for x in p.at_pt(s)], begins=[pt(x.atbegin_pt()) for x in ps], ends=[pt(x.atend_pt()) for x in ps], rev=[pt(x) for x in v.at_pt([t - x for x in s])],
                tip=[pt(x.atend_pt()) for x in tan], revtip=[pt(x.atend_pt()) for x in rtan], piecetip=[pt(x.tangent_pt(0, 1).atend_pt()) for x in ps[1:]], first=pt(p.atbegin_pt()), last=pt(p.atend_pt()),
                box=[rd(x) for x in n.bbox().highrestuple_pt()])


def ask(r, p, path, q, s, other=None):
    o = guard(query, r, p, path, q, s, other)
    return o.value if o.ok else dict(k=q, failed=str(o.exc), s=s)


def positions(r, path, n, outside=True):
    t = polylib.length(path)
    res = []
    for i in range(n):
        x = r.random()
        res.append(0 if x < 0.1 else t if x < 0.2 else r.choice([-60, t + 60, t + 120]) if x < 0.3 and outside else 30 * r.randint(0, t // 30))
    return res


def dotted(path):
    return any(len(sub["p"]) == 1 for sub in path)


def run(ctx):
    r = ctx.rng
    traces = []
    res = ctx.model_check("PolyMC", constants=dict(MaxSegs=ctx.n(3, 4), Two=True), invariants=["Sound", "Emit"], label="all small paths with two cuts", heap="8g", timeout=3000)
    small = [json.loads(x[1:]) for x in res.prints]
    n = ctx.n(2000, 25000)
    for path, cut in (r.sample(small, n) if len(small) > n else small):
        uniform = r.random() < 0.7
        p = polylib.build(r, path, r.choice(["path", "normpath"]), r.choice([0, 0, 0.4]), uniform)
        ev = [dict(k="path", path=path, uniform=uniform), ask(r, p, path, "split" if not {polylib.length(path[:1])} & set(cut) or len(path) == 1 else "shape", cut), ask(r, p, path, "at", cut)]
        if not dotted(path) and uniform:
            ev.append(ask(r, p, path, "arith", cut))
        traces.append(dict(ev=ev))
    for i in range(ctx.n(900, 10000)):
        path = polylib.random_path(r)
        uniform = r.random() < 0.7
        p = polylib.build(r, path, r.choice(["path", "normpath"]), r.choice([0, 0.3]), uniform)
        dots = dotted(path)
        ev = [dict(k="path", path=path, uniform=uniform)]
        for q in r.sample(["shape", "arclen", "ends", "at", "dir", "reversed", "split", "split", "joined", "added", "arith"], 6):
            if dots and q in ("dir", "arith", "added") or q == "arith" and not uniform:
                continue
            s = positions(r, path, r.choice([1, 2, 3]), q != "split" and uniform)
            other = polylib.random_path(r, dots=False)
            if q == "split":
                # a cut exactly where a subpath ends may be at either side
                ends = {polylib.length(path[:i + 1]) for i in range(len(path) - 1)}
                s = sorted(x + 30 * (x in ends) for x in s)
            if q == "joined" and (path[-1]["z"] or other[0]["z"]):
                continue
            if q == "joined":
                # the connecting line need not have an integer length
                dx, dy = [path[-1]["p"][-1][c] - other[0]["p"][0][c] for c in (0, 1)]
                dy += r.choice([0, 60])
                other[0]["p"] = [[x + dx, y + dy] for x, y in other[0]["p"]]
            if q == "dir":
                # not at the corners
                s = [min(x - x % 60 + 30, polylib.length(path) - 30) if not uniform else x - x % 60 + 30 for x in s]
            if q == "arith":
                s = positions(r, path, 2, False)
                s[0] -= s[0] % 60
            ev.append(ask(r, p, path, q, s, other))
        ev.append(ask(r, p, path, "shape", []))
        traces.append(dict(ev=ev))
    for i in range(ctx.n(300, 5000)):
        o = guard(law, r)
        traces.append(dict(ev=[o.value if o.ok else dict(k="law", failed=str(o.exc))]))

    def key(t, l, why):
        e = t["ev"][l - 1]
        return "path:%s:%s:%s" % (e["k"], why, e.get("failed", "")[:60])

    def describe(t, l, why):
        return "%s: %s of %s" % (why, json.dumps(t["ev"][l - 1])[:400], json.dumps(t["ev"][0])[:400])
    ctx.validate("PolyTrace", traces, key=key, describe=describe, heap="12g", chunk=1500)
    ctx.sample({"path": traces[-400]["ev"][0]})
