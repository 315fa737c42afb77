"""K01: alignment, tiling and measures of boxes (spec/Boxes.tla, BoxesMC.tla, BoxesTrace.tla)."""
import json, math
from vp import guard

DIRS = [(1, 0), (0, 1), (-1, 0), (0, -1), (3, 4), (4, 3), (-3, 4), (-4, 3), (3, -4), (4, -3), (-3, -4), (-4, -3)]
TRI = [((4, 3), (-4, 0), (0, -3)), ((3, 4), (-3, 0), (0, -4)), ((-4, 3), (4, 0), (0, -3)), ((-3, -4), (3, 0), (0, 4)), ((-4, -3), (4, 0), (0, 3)), ((4, -3), (-4, 0), (0, 3))]


def rd(x):
    return int(round(100 * x))


def polygon(r, big=False):
    """corners and a centre within"""
    if r.random() < 0.4:
        w, h = r.choice([0, 1, 3, 10, 25]), r.choice([0, 2, 5, 12])
        if not w and not h:
            w = 4
        x, y = r.randint(-20, 20), r.randint(-20, 20)
        ps = [(x, y), (x + w, y), (x + w, y + h), (x, y + h)]
    else:
        edges = {}

        def add(v, n):
            g = math.gcd(*v)
            d = (v[0] // g, v[1] // g)
            edges[d] = edges.get(d, 0) + n * g
        for i in range(r.choice([1, 2, 2, 3])):
            if r.random() < 0.5:
                d, n = r.choice(DIRS), r.randint(1, 3)
                add(d, n)
                add((-d[0], -d[1]), n)
            else:
                n = r.randint(1, 2)
                for v in r.choice(TRI):
                    add(v, n)
        if len(edges) < 3:
            return polygon(r)
        ps, p = [], (r.randint(-15, 15), r.randint(-15, 15))
        for d in sorted(edges, key=lambda d: math.atan2(d[1], d[0])):
            ps.append(p)
            p = (p[0] + edges[d] * d[0], p[1] + edges[d] * d[1])
    if r.random() < 0.2:
        c = r.choice(ps)
    else:
        xs, ys = [p[0] for p in ps], [p[1] for p in ps]
        inner = [(x, y) for x in range(min(xs), max(xs) + 1) for y in range(min(ys), max(ys) + 1)
                 if all((b[0] - a[0]) * (y - a[1]) - (b[1] - a[1]) * (x - a[0]) >= 0 for a, b in zip(ps, ps[1:] + ps[:1]))]
        c = r.choice(inner)
    return [list(p) for p in ps], list(c)


def make(r, ps, c):
    from pyx import box, unit
    u = unit.t_pt
    xs, ys = [p[0] for p in ps], [p[1] for p in ps]
    w, h = max(xs) - min(xs), max(ys) - min(ys)
    if len(ps) == 4 and ps == [[min(xs), min(ys)], [max(xs), min(ys)], [max(xs), max(ys)], [min(xs), max(ys)]] and r.random() < 0.7:
        rel = (c[0] - min(xs), c[1] - min(ys))
        if w and h and r.random() < 0.5:
            f = r.choice([0, 0.5, 1])
            kw = dict(relcenter=(f * rel[0] / w, f * rel[1] / h), abscenter=((1 - f) * rel[0], (1 - f) * rel[1]))
        else:
            kw = dict(abscenter=rel)
        if r.random() < 0.5:
            kw["abscenter_pt"] = kw.pop("abscenter")
            return box.rect_pt(min(xs), min(ys), w, h, **kw)
        kw["abscenter"] = [x * u for x in kw["abscenter"]]
        return box.rect(min(xs) * u, min(ys) * u, w * u, h * u, **kw)
    if r.random() < 0.5:
        return box.polygon_pt([tuple(p) for p in ps], tuple(c))
    return box.polygon([[x * u for x in p] for p in ps], [x * u for x in c])


def corners(b):
    return [[rd(x), rd(y)] for x, y in b.corners]


def direction(r):
    d, n = r.choice(DIRS), r.choice([1, 1, 2])
    return [n * d[0], n * d[1]]


def align(r, kind, ps, c, a, d):
    from pyx import trafo, unit
    e = dict(k=kind, ps=ps, c=c, a=a, d=d, failed="", got=[], gotc=[])

    def go():
        b = make(r, ps, c)
        u = unit.t_pt
        m = r.randrange(4)
        if m == 0:
            x = getattr(b, kind + "align_pt")(a, *d)
            assert x is b
        elif m == 1:
            x = getattr(b, kind + "align")(a * u, *d)
            assert x is b
        else:
            v = getattr(b, kind + "alignvector_pt")(a, *d) if m == 2 else [unit.topt(t) for t in getattr(b, kind + "alignvector")(a * u, *d)]
            b.transform(trafo.translate_pt(*v))
        return corners(b), [rd(x) for x in b.center]
    o = guard(go)
    if o.ok:
        e["got"], e["gotc"] = o.value
    else:
        e["failed"] = str(o.exc)
    return e


def several(r, kind):
    from pyx import box, unit
    boxes = [dict(zip(("ps", "c"), polygon(r))) for i in range(r.choice([1, 2, 3, 4]))]
    a, d = r.choice([0, 1, 3, 7, 20]), direction(r)
    e = dict(k=kind if kind == "tile" else "equal", kind=kind, boxes=boxes, a=a, d=d, failed="", got=[], delta=0)

    def go():
        bs = [make(r, b["ps"], b["c"]) for b in boxes]
        pt = r.random() < 0.5
        name = "tile" if kind == "tile" else kind + "alignequal"
        v = getattr(box, name + "_pt")(bs, a, *d) if pt else getattr(box, name)(bs, a * unit.t_pt, *d)
        if kind == "tile":
            e["delta"] = rd(v if pt else unit.topt(v))
        return [corners(b) for b in bs]
    o = guard(go)
    if o.ok:
        e["got"] = o.value
    else:
        e["failed"] = str(o.exc)
    return e


def distance(r):
    from pyx import unit
    boxes = [dict(zip(("ps", "c"), polygon(r))) for i in range(2)]
    e = dict(k="distance", boxes=boxes, failed="", got=0)

    def go():
        a, b = (make(r, x["ps"], x["c"]) for x in boxes)
        return rd(a.boxdistance_pt(b) if r.random() < 0.5 else unit.topt(a.boxdistance(b)))
    o = guard(go)
    if o.ok:
        e["got"] = o.value
    else:
        e["failed"] = str(o.exc).split(":")[0]
    return e


def measure(r):
    from pyx import unit
    ps, c = polygon(r)
    d, p = direction(r), [r.randint(-40, 40), r.randint(-40, 40)]
    e = dict(k="measure", ps=ps, c=c, d=d, p=p, failed="", extent=0, dist=0, box=[], outline=[], same=[])

    def go():
        import polylib
        b = make(r, ps, c)
        e["extent"] = rd(b.extent_pt(*d) if r.random() < 0.5 else unit.topt(b.extent(*d)))
        e["dist"] = rd(b.pointdistance_pt(*p) if r.random() < 0.5 else unit.topt(b.pointdistance(*[x * unit.t_pt for x in p])))
        e["box"] = [rd(x) for x in b.bbox().highrestuple_pt()]
        it = [x for x in b.path().pathitems]
        assert len(it) == len(ps) + 1
        e["outline"] = [[rd(it[0].x_pt), rd(it[0].y_pt)]] + [[rd(x.x_pt), rd(x.y_pt)] for x in it[1:-1]]
        e["same"] = corners(b)
        assert [rd(x) for x in b.center] == [100 * x for x in c]
    o = guard(go)
    if not o.ok:
        e["failed"] = str(o.exc)
    return e


def trans(r):
    from pyx import trafo
    ps, c = polygon(r)
    m = r.choice([(1, 0, 0, 1), (0, -1, 1, 0), (2, 0, 0, 3), (1, 1, 0, 1), (-1, 0, 0, 1)]) + (r.randint(-9, 9), r.randint(-9, 9))
    rel, keep = r.random() < 0.5, r.random() < 0.3
    e = dict(k="transform", ps=ps, c=c, m=m, rel=rel, keep=keep and not rel, failed="", got=[], gotc=[])

    def go():
        b = make(r, ps, c)
        ts = [trafo.trafo_pt(((m[0], m[1]), (m[2], m[3])), (0, 0)), trafo.translate_pt(m[4], m[5])]
        if r.random() < 0.5:
            ts = [trafo.trafo_pt(((m[0], m[1]), (m[2], m[3])), (m[4], m[5]))]
        if rel:
            b.reltransform(*ts)
        elif e["keep"]:
            b.transform(*ts, keep_anchor=True)
        else:
            b.transform(*ts)
        return corners(b), [rd(x) for x in b.center]
    o = guard(go)
    if o.ok:
        e["got"], e["gotc"] = o.value
    else:
        e["failed"] = str(o.exc)
    return e


def run(ctx):
    r = ctx.rng
    traces = []
    res = ctx.model_check("BoxesMC", constants=dict(K=ctx.n(3, 6)), invariants=["Touches", "Beyond", "Size", "Both", "Tiled", "Emit"], label="small boxes and line alignments")
    small = [json.loads(x[1:]) for x in res.prints]
    ctx.note(alignments=len(small))
    k = ctx.n(1500, 20000)
    for s in small if len(small) <= k else r.sample(small, k):
        traces.append(dict(ev=[align(r, "line", s["ps"], s["c"], s["a"], s["d"]), align(r, "circle", s["ps"], s["c"], s["a"], s["d"])]))
    for i in range(ctx.n(1200, 15000)):
        ps, c = polygon(r)
        ev = []
        for kind in ("line", "circle"):
            ev.append(align(r, kind, ps, c, r.choice([0, 1, 3, 7, 20]), direction(r)))
        ev.append(measure(r))
        ev.append(trans(r))
        ev.append(distance(r))
        ev.append(several(r, r.choice(["line", "circle", "tile", "tile"])))
        traces += [dict(ev=[e]) for e in ev]

    def key(t, l, why):
        e = t["ev"][l - 1]
        return "box:%s:%s:%s" % (e["k"], why, e["failed"][:60])

    def describe(t, l, why):
        return "%s: %s" % (why, json.dumps(t["ev"][l - 1])[:700])
    ctx.validate("BoxesTrace", traces, key=key, describe=describe, heap="12g", chunk=3000)
    ctx.sample({"box": traces[-1]["ev"][0]})
