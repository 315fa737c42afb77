"""P04: intersections (spec/Cross.tla, CrossMC.tla, CrossTrace.tla)."""
import json
from vp import guard
import polylib

F = 10.0    # points per unit of the model


def scaled(path):
    return [dict(p=[[int(x * F * polylib.S) for x in q] for q in s["p"]], z=s["z"]) for s in path]


def positions(res, pa, pb):
    out = []
    for a, b in zip(*res):
        out.append([dict(s=x.normsubpathindex + 1, x=int(round(1e5 * x.normsubpathparam)), pt=[int(round(1000 * c / F)) for c in p.at_pt(x)]) for x, p in ((a, pa), (b, pb))])
    return out


def both(p, q):
    n, m = p.normpath(), q.normpath()
    return positions(p.intersect(q), n, m), positions(q.intersect(p), m, n)


def cross(r, a, b):
    uniform = r.random() < 0.7
    p, q = [polylib.build(r, scaled(x), r.choice(["path", "normpath"]), r.choice([0, 0, 0.5]), uniform) for x in (a, b)]
    e = dict(k="cross", a=a, b=b, failed="", uniform=uniform, got=[], swapped=[])
    o = guard(both, p, q)
    if o.ok:
        e["got"], e["swapped"] = o.value
    else:
        e["failed"] = str(o.exc)
    return e


def polyline(r, n, lo=-9, hi=9, subs=1):
    path = []
    for i in range(subs):
        pts = []
        while len(pts) < n:
            q = [r.randint(lo, hi), r.randint(lo, hi)]
            if not pts or pts[-1] != q:
                pts.append(q)
        z = r.random() < 0.4 and n > 2 and pts[0] != pts[-1] and (pts[1][0] - pts[0][0]) * (pts[2][1] - pts[0][1]) != (pts[1][1] - pts[0][1]) * (pts[2][0] - pts[0][0])
        path.append(dict(p=pts, z=z))
    return path


def circle(r):
    from pyx import path as pm
    k = r.choice([1, 2])
    c = [r.randint(-3, 3), r.randint(-3, 3)]
    off = [k * d for d in (-8, -7, -4, -3, 0, 3, 4, 7, 9)]
    path = []
    for i in range(r.choice([1, 1, 2])):
        x, y = [k * r.choice([-7, 7, 0, 9]) for j in (0, 1)]
        while x == 0 and y == 0:
            x, y = [k * r.choice([-7, 7, 0, 9]) for j in (0, 1)]
        if 0 < abs(x) + abs(y) <= 5 * k:
            x = 9 * k
        pts = [[x, y]]
        for j in range(r.choice([1, 2, 3, 4])):
            for t in range(50):
                n = list(pts[-1])
                d = r.choice((0, 1))
                n[d] = r.choice(off)
                # the corners are not on the circle
                if n != pts[-1] and n[0] ** 2 + n[1] ** 2 != 25 * k * k and (len(pts) < 2 or n[d] == pts[-1][d] or pts[-2][1 - d] != pts[-1][1 - d] or True):
                    pts.append(n)
                    break
        path.append(dict(p=[[q[0] + c[0], q[1] + c[1]] for q in pts], z=False))
    circ = pm.circle_pt(F * c[0], F * c[1], F * 5 * k)
    if r.random() < 0.4:
        circ = pm.path(pm.arc_pt(F * c[0], F * c[1], F * 5 * k, 37 + 45 * r.randint(0, 5), 0))
        n = circ.pathitems[0]
        circ = pm.path(pm.arc_pt(F * c[0], F * c[1], F * 5 * k, n.angle1, n.angle1 + 360), pm.closepath())
    p = polylib.build(r, scaled(path), r.choice(["path", "normpath"]), r.choice([0, 0.4]))
    e = dict(k="circle", a=path, c=c, r=k, failed="", got=[])
    o = guard(lambda: positions(p.intersect(circ), p.normpath(), circ.normpath()))
    if o.ok:
        e["got"] = o.value
    else:
        e["failed"] = str(o.exc)
    return e


def smooth(r):
    from pyx import path as pm
    items = []
    z = r.random() < 0.5
    for i in range(r.choice([1, 1, 2])):
        items.append(pm.moveto_pt(r.uniform(-40, 40), r.uniform(-40, 40)))
        for j in range(r.choice([1, 2, 3])):
            items.append(pm.curveto_pt(*[r.uniform(-60, 60) for k in range(6)]) if r.random() < 0.8 else pm.lineto_pt(r.uniform(-60, 60), r.uniform(-60, 60)))
        if z:
            items.append(pm.closepath())
    return pm.path(*items), z


def law(r):
    p, zp = smooth(r)
    q, zq = smooth(r)
    e = dict(k="law", failed="", got=[], swapped=[], closed=int(zp and zq), tangent=False)
    o = guard(both, p, q)
    if o.ok:
        e["got"], e["swapped"] = o.value
        # nearly touching curves are no general position
        n, m = p.normpath(), q.normpath()
        for (a, b) in zip(*p.intersect(q)):
            ca, cb = n.rotation(a).apply_pt(1, 0), m.rotation(b).apply_pt(1, 0)
            if abs(ca[0] * cb[1] - ca[1] * cb[0]) < 0.02:
                e["tangent"] = True
    else:
        e["failed"] = str(o.exc)
    return e


def run(ctx):
    r = ctx.rng
    traces = []
    res = ctx.model_check("CrossMC", constants=dict(N=ctx.n(3, 4)), invariants=["Swap", "SamePoint", "Even", "Reverse", "Emit"], label="all small pairs of paths", heap="8g", timeout=2000)
    small = [json.loads(x[1:]) for x in res.prints]
    ctx.note(pairs=len(small))
    k = ctx.n(2500, 30000)
    for a, b in small if len(small) <= k else r.sample(small, k):
        traces.append(dict(ev=[cross(r, a, b)]))
    for i in range(ctx.n(1200, 15000)):
        a, b = polyline(r, r.choice([2, 3, 4, 5]), subs=r.choice([1, 1, 2, 3])), polyline(r, r.choice([2, 3, 4, 5]), subs=r.choice([1, 1, 2, 3]))
        traces.append(dict(ev=[cross(r, a, b)]))
    for i in range(ctx.n(400, 5000)):
        traces.append(dict(ev=[circle(r)]))
    for i in range(ctx.n(300, 5000)):
        traces.append(dict(ev=[law(r)]))

    def key(t, l, why):
        e = t["ev"][l - 1]
        return "cross:%s:%s:%s" % (e["k"], why, e["failed"][:60])

    def describe(t, l, why):
        return "%s: %s" % (why, json.dumps(t["ev"][l - 1])[:700])
    ctx.validate("CrossTrace", traces, key=key, describe=describe, heap="12g", chunk=1500)
    ctx.sample({"intersection": traces[-800]["ev"][0]})
