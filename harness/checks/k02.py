"""K02: connectors (spec/Boxes.tla, Connector.tla, ConnectorTrace.tla)."""
import json, math
from vp import guard
from checks import k01
from checks.k01 import DIRS

SC = 20  # recorded numbers are 1/20 pt


def rd(x):
    return int(round(SC * x))


def moved(ps, c, to):
    v = (to[0] - c[0], to[1] - c[1])
    return [[p[0] + v[0], p[1] + v[1]] for p in ps], list(to)


def inside(ps, p, margin):
    for a, b in zip(ps, ps[1:] + ps[:1]):
        g = (b[0] - a[0], b[1] - a[1])
        n = math.hypot(*g)
        if n and (g[0] * (p[1] - a[1]) - g[1] * (p[0] - a[0])) / n < -margin:
            return False
    return True


def clear(ps, a, b, margin=1.5):
    return not any(inside(ps, (a[0] + t / 60 * (b[0] - a[0]), a[1] + t / 60 * (b[1] - a[1])), margin) for t in range(61))


def leaving(ps, a, b):
    """how far from a towards b the box is left"""
    n = math.hypot(b[0] - a[0], b[1] - a[1])
    return max(n * t / 200 for t in range(201) if inside(ps, (a[0] + t / 200 * (b[0] - a[0]), a[1] + t / 200 * (b[1] - a[1])), 0.2)) if n else 0


def solid(r):
    while True:
        ps, c = k01.polygon(r)
        if all(max(p[i] for p in ps) > min(p[i] for p in ps) for i in (0, 1)):
            return ps, c


def scale(ps):
    return [[SC * x for x in p] for p in ps]


def samples(p, n=12):
    t = p.arclen_pt()
    return [[rd(x) for x in q] for q in p.at_pt([t * i / n for i in range(n + 1)])]


def nodes(p):
    n = p.normpath()
    assert len(n) == 1 and not n[0].closed
    return [[rd(x) for x in n[0].atbegin_pt()]] + [[rd(x) for x in i.atend_pt()] for i in n[0].normsubpathitems]


def record(r, kind, b1, c1, b2, c2, cls, kw, dist, extra):
    from pyx import connector, unit
    e = dict(k=kind, b1=scale(b1), b2=scale(b2), c1=[SC * x for x in c1], c2=[SC * x for x in c2], dist=[SC * x for x in dist], args=json.dumps({k: round(v, 3) for k, v in kw.items()}),
             failed="", nodes=[], points=[], control=[], plain=[], unmoved=True)
    e.update(extra)

    def go():
        x, y = k01.make(r, b1, c1), k01.make(r, b2, c2)
        lens = ("absbulge", "length1", "length2")
        if r.random() < 0.5:
            args = dict(kw)
            if any(dist) or r.random() < 0.3:
                args["boxdists"] = list(dist)
            make = getattr(connector, cls + "_pt")
        else:
            args = {k: v * unit.t_pt if k in lens else v for k, v in kw.items()}
            if any(dist) or r.random() < 0.3:
                args["boxdists"] = [d * unit.t_pt for d in dist]
            make = getattr(connector, cls)
        c = make(x, y, **args)
        e["unmoved"] = k01.corners(x) == [[100 * v for v in p] for p in b1] and k01.corners(y) == [[100 * v for v in p] for p in b2] and [rd(v) for v in x.center] == e["c1"] and [rd(v) for v in y.center] == e["c2"]
        e["points"] = samples(c)
        if any(dist) and kind in ("arc", "curve"):
            args["boxdists"] = [0, 0]
            e["plain"] = samples(make(x, y, **args))
        if kind in ("line", "twolines"):
            e["nodes"] = nodes(c)
        elif e["control"] == [1]:
            n = c.normpath()
            e["control"] = [[rd(v) for v in q] for i in n[0].normsubpathitems for q in ((i.x0_pt, i.y0_pt), (i.x1_pt, i.y1_pt), (i.x2_pt, i.y2_pt), (i.x3_pt, i.y3_pt))]
    o = guard(go)
    if not o.ok:
        e["failed"] = str(o.exc)
    return e


def line(r):
    while True:
        b1, c1 = solid(r)
        d, n = r.choice(DIRS), r.choice([4, 8, 12, 20])
        b2, c2 = moved(*solid(r), (c1[0] + n * d[0], c1[1] + n * d[1]))
        gap = math.dist(c1, c2) - leaving(b1, c1, c2) - leaving(b2, c2, c1)
        dist = [r.choice([0, 1, 2, 3]), r.choice([0, 1, 2])]
        if gap > sum(dist) + 1.5:
            return record(r, "line", b1, c1, b2, c2, "line", {}, dist, {})


def short(r):
    """boxes which are closer to each other than the connector shall keep away from them"""
    b1, c1 = solid(r)
    d, n = r.choice(DIRS), r.choice([2, 3, 4, 6])
    b2, c2 = moved(*solid(r), (c1[0] + n * d[0], c1[1] + n * d[1]))
    return record(r, "short", b1, c1, b2, c2, "line", {}, [r.choice([0, 1, 5, 50]), r.choice([0, 1, 5, 50])], {})


def twolines(r):
    while True:
        b1, c1 = solid(r)
        d1, d2 = r.sample(DIRS, 2)
        if d1[0] * d2[1] == d1[1] * d2[0]:
            continue
        n1, n2 = r.choice([4, 6, 8, 12]), r.choice([4, 6, 8, 12])
        m = (c1[0] + n1 * d1[0], c1[1] + n1 * d1[1])
        b2, c2 = moved(*solid(r), (m[0] + n2 * d2[0], m[1] + n2 * d2[1]))
        D, l1, l2 = math.dist(c1, c2), math.dist(c1, m), math.dist(m, c2)
        if D < 5 or not clear(b1, m, c2) or not clear(b2, c1, m):
            continue
        dist = [r.choice([0, 0, 1, 3]), r.choice([0, 0, 2])]
        if l1 - leaving(b1, c1, m) < dist[0] + 2 or l2 - leaving(b2, c2, m) < dist[1] + 2:
            continue
        # circles around the ends must not meet the other line
        if any(dist) and min(l1 - leaving(b1, c1, m), l2 - leaving(b2, c2, m)) < 5:
            continue
        ang = lambda a, b: math.atan2(b[1] - a[1], b[0] - a[0])
        norm = lambda x: (x + math.pi) % (2 * math.pi) - math.pi
        da = ang(c1, c2)
        r1, r2 = norm(da - ang(c1, m)), norm(ang(c2, m) + math.pi - da)
        right = r1 > 0
        rm = math.pi - r1 - r2
        deg = math.degrees
        a1, a2 = dict(relangle1=deg(r1)), dict(relangle2=deg(r2))
        abs1, abs2, am = dict(absangle1=deg(ang(c1, m))), dict(absangle2=deg(ang(m, c2))), dict(relangleM=deg(rm))
        L1, L2 = dict(length1=l1), dict(length2=l2)
        combos = [(a1, a2), (abs1, abs2), (a1, abs2), (a1, L1), (abs1, L1), (a2, L2)]
        if right:
            combos += [(a1, am), (a2, am), (abs1, am), (L1, L2)]
            if D > l1 + 0.1:
                combos.append((am, L1))
            if D > l2 + 0.1:
                combos.append((am, L2))
        if l2 > D + 0.1:
            combos += [(a1, L2), (abs1, L2)]
        if l1 > D + 0.1:
            combos.append((a2, L1))
        x, y = r.choice(combos)
        return record(r, "twolines", b1, c1, b2, c2, "twolines", dict(x, **y), dist, dict(m=[SC * v for v in m]))


def arc(r):
    while True:
        b1, c1 = solid(r)
        d, n = r.choice(DIRS), r.choice([4, 8, 12, 16])
        b2, c2 = moved(*solid(r), (c1[0] + n * d[0], c1[1] + n * d[1]))
        D = math.dist(c1, c2)
        if math.dist(c1, c2) - leaving(b1, c1, c2) - leaving(b2, c2, c1) < 3 or any(inside(b1, p, 3) for p in b2) or any(inside(b2, p, 3) for p in b1):
            continue
        b = r.choice([1, 2, 4, 5, 8, 10]) * r.choice([1, -1])
        if abs(b) > 0.8 * D:
            continue
        kw = r.choice([dict(absbulge=b), dict(relbulge=b / D), dict(absbulge=b / 2, relbulge=b / 2 / D), dict(relangle=2 * math.degrees(math.atan(2 * b / D))), dict(relangle=77, absbulge=b)])
        return record(r, "arc", b1, c1, b2, c2, "arc", kw, r.choice([[0, 0], [r.choice([0, 1, 2, 3]), r.choice([0, 1, 2])]]), dict(bulge=SC * b))


def curve(r):
    while True:
        b1, c1 = solid(r)
        b2, c2 = moved(*solid(r), (c1[0] + r.randint(-60, 60), c1[1] + r.randint(-60, 60)))
        D = math.dist(c1, c2)
        if D < 12 or any(inside(b1, p, 3) for p in b2) or any(inside(b2, p, 3) for p in b1) or not clear(b1, c2, c2) or not clear(b2, c1, c1):
            continue
        da = math.atan2(c2[1] - c1[1], c2[0] - c1[0])
        g1, g2 = math.radians(r.randint(-70, 70)), math.radians(r.randint(-70, 70))
        b = r.uniform(0.1, 0.6) * D
        kw = {}
        kw.update(r.choice([dict(relangle1=math.degrees(g1)), dict(absangle1=math.degrees(g1 + da)), dict(absangle1=math.degrees(g1 + da), relangle1=5)]))
        kw.update(r.choice([dict(relangle2=math.degrees(g2)), dict(absangle2=math.degrees(g2 + da)), dict(absangle2=math.degrees(g2 + da), relangle2=5)]))
        kw.update(r.choice([dict(absbulge=b, relbulge=0), dict(relbulge=b / D), dict(absbulge=b / 3, relbulge=2 * b / 3 / D)]))
        p1 = (c1[0] + b * math.cos(da + g1), c1[1] + b * math.sin(da + g1))
        p2 = (c2[0] - b * math.cos(da + g2), c2[1] - b * math.sin(da + g2))
        entire = False
        if r.random() < 0.6:
            # boxes which lie behind their centres: nothing is cut
            b1 = [[c1[0], c1[1]]] + [list(x) for x in ((c1[0] - 4, c1[1] + 3), (c1[0] - 7, c1[1] - 1), (c1[0] - 3, c1[1] - 4))]
            b2 = [[c2[0], c2[1]], [c2[0] + 3, c2[1] - 4], [c2[0] + 7, c2[1] - 1], [c2[0] + 4, c2[1] + 3]]
            away = lambda ps, c, a: all((math.cos(a) * (p[0] - c[0]) + math.sin(a) * (p[1] - c[1])) < -0.5 for p in ps if p != list(c))
            entire = away(b1, c1, da + g1) and away(b2, c2, da + g2 + math.pi) and away(b1, c1, da) and away(b2, c2, da + math.pi)
            if not entire:
                continue
        pts = [[rd(x) for x in q] for q in (c1, p1, p2, c2)]
        dist = r.choice([[0, 0], [r.choice([0, 1, 2, 3]), r.choice([0, 1, 2])]])
        return record(r, "curve", b1, c1, b2, c2, "curve", kw, dist, dict(want=pts, control=[1] if entire and not any(dist) else []))


def run(ctx):
    r = ctx.rng
    traces = []
    for kind, q, t in ((line, 600, 8000), (short, 200, 2000), (twolines, 900, 12000), (arc, 500, 6000), (curve, 500, 6000)):
        for i in range(ctx.n(q, t)):
            traces.append(dict(ev=[kind(r)]))

    def key(t, l, why):
        e = t["ev"][l - 1]
        return "connector:%s:%s:%s" % (e["k"], why, e["failed"][:60])

    def describe(t, l, why):
        return "%s: %s" % (why, json.dumps(t["ev"][l - 1])[:900])
    ctx.validate("ConnectorTrace", traces, key=key, describe=describe, heap="12g", chunk=1500)
    ctx.sample({"connector": traces[-1]["ev"][0]})
