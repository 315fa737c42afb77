"""E01: decorated paths (spec/Deco.tla, DecoMC.tla, DecoTrace.tla)."""
import io, json, math
from vp import guard
import paints, polylib, stubtext
from polylib import S, rd

PAL = {1: (1, 0, 0), 2: (0, 0.4, 0), 3: (0, 0, 1), 4: (0.4, 0.4, 0), 5: (0, 0, 0)}
HEX = {"#%02x%02x%02x" % tuple(int(round(255 * x)) for x in c): i for i, c in PAL.items()}
ANGLE = 2 * math.degrees(math.atan2(3, 4))


def col(i):
    from pyx import color
    return color.rgb(*PAL[i])


def subpaths(d):
    """recorded shape of painted path operators; without mere points"""
    res = []
    for k, pts in d:
        if k == "m":
            res.append(dict(p=[pts[0]], z=False))
        elif k == "z":
            res[-1]["z"] = True
        else:
            if res[-1]["z"]:
                res.append(dict(p=[res[-1]["p"][0]], z=False))
            res[-1]["p"].append(pts[-1])
    out = []
    near = lambda a, b: max(abs(a[0] - b[0]), abs(a[1] - b[1])) < 2e-3
    for s in res:
        p = [s["p"][0]]
        for q in s["p"][1:]:
            if not near(p[-1], q):
                p.append(q)
        if s["z"] and len(p) > 1 and near(p[0], p[-1]):
            p.pop()
        if len(p) > 1:
            out.append(dict(p=[[rd(x), rd(y)] for x, y in p], z=s["z"]))
    return out


def write(c, fmt):
    f = io.BytesIO()
    getattr(c, {"eps": "writeEPSfile", "pdf": "writePDFfile", "svg": "writeSVGfile"}[fmt])(f)
    return paints.READ[fmt](f.getvalue())


def conlen(a):
    return a["size"] * (a["cons"] or 2) // 2 * 4 // 5


def span(a, total):
    """arc lengths between which an arrow is"""
    c = conlen(a)
    t = (0 if a["rev"] else c) + a["pos"] * (total - c) // 4
    e = t - (-1 if a["rev"] else 1) * a["size"]
    return min(t, e), max(t, e)


def bounds(path):
    res, s = [0], 0
    for sub in path:
        s += polylib.length([sub])
        res.append(s)
    return res


def fits(path, a):
    b = bounds(path)
    lo, hi = span(a, b[-1])
    return lo >= 0 and hi <= b[-1] and all(hi < x or lo > x for x in b[1:-1])


def arrow(r):
    f, s = r.choice([(1, 0), (3, 0), (2, 1), (0, 4)]) if r.random() < 0.6 else (5, 0)
    return dict(t="arrow", pos=r.choice([0, 4, 4, 0, 1, 2, 3]), rev=r.random() < 0.5, size=300 * r.choice([1, 1, 2, 3]), cons=r.choice([0, 1, 2]), fill=f, stroke=s)


def text(r, total):
    mode = r.choice(["begin", "end", "rel"])
    rel = r.random() < 0.5
    d = r.choice([(5, 0), (0, 5), (-5, 0), (0, -5)])
    n = r.choice([1, 2, 5])
    return dict(t="text", mode=mode, v=r.randint(0, 4) if mode == "rel" else 15 * r.randint(0, total // 15), rel=rel, dir=d, dist=60 * r.choice([0, 1, 5]), w=4 * n * S, h=8 * S)


def deco_of(r, it):
    from pyx import deco, unit
    u = unit.t_pt
    if it["t"] == "text":
        a = math.degrees(math.atan2(it["dir"][1], it["dir"][0]))
        kw = dict(angle=a) if not it["rel"] else dict(relangle=a)
        if it["mode"] == "rel":
            kw["relarclenpos"] = it["v"] / 4
        else:
            kw["arclenfrombegin" if it["mode"] == "begin" else "arclenfromend"] = it["v"] / S * u
        return deco.text("x" * (it["w"] // (4 * S)), textdist=it["dist"] / S * u, **kw)
    attrs = []
    if it["stroke"]:
        attrs.append(deco.stroked([col(it["stroke"])]))
    if not it["fill"]:
        attrs.append(deco.filled.clear)
    elif it["fill"] != 5 or r.random() < 0.3:
        # the colour of the whole arrow, or of its filling
        attrs.append(deco.filled([col(it["fill"])]) if it["stroke"] or r.random() < 0.5 else col(it["fill"]))
    kw = dict(attrs=attrs, size=it["size"] / S * u, angle=ANGLE, constriction=None if not it["cons"] else it["cons"] / 2)
    if r.random() < 0.3 and it["rev"] and it["pos"] == 0:
        return deco.barrow(**kw)
    if r.random() < 0.3 and not it["rev"] and it["pos"] == 4:
        return deco.earrow(**kw)
    return deco.arrow(pos=it["pos"] / 4, reversed=r.choice([1, True]) if it["rev"] else 0, **kw)


def engine(made):
    E, B = stubtext.make()

    class Keep(E):
        def text_pt(self, *a, **k):
            b = E.text_pt(self, *a, **k)
            made.append(b)
            return b
    return Keep(4)


def paint(r, path, items, fill, stroke, fmt, curves=0.0):
    from pyx import canvas, deco
    e = dict(k="paint", path=path, items=items, fill=fill, stroke=stroke, fmt=fmt, failed="", got=[], centers=[])

    def make():
        made = []
        c = canvas.canvas(textengine=engine(made))
        p = polylib.build(r, path, r.choice(["path", "normpath"]), curves)
        decos = [deco_of(r, i) for i in items]
        # fill and stroke apply wherever they stand
        base = []
        if stroke:
            base.append(deco.stroked([col(stroke)]) if stroke != 5 else deco.stroked)
        if fill:
            base.append(deco.filled([col(fill)]) if fill != 5 else deco.filled)
        r.shuffle(base)
        k = r.randint(0, len(decos))
        if stroke == 5 and not fill and r.random() < 0.4:
            c.stroke(p, decos)
        elif fill == 5 and not stroke and r.random() < 0.4:
            c.fill(p, decos)
        else:
            c.draw(p, decos[:k] + base + decos[k:])
        ops = [dict(op=o["op"], color=HEX.get(o["color"], -1), subs=subpaths(o["d"])) for o in write(c, fmt) if o["op"] != "text"]
        return [o for o in ops if o["subs"]], [[rd(b.center[0]), rd(b.center[1])] for b in made]
    o = guard(make)
    if o.ok:
        e["got"], e["centers"] = o.value
    else:
        e["failed"] = str(o.exc)
    return e


def hatch(r, path, fmt):
    from pyx import canvas, deco, color, unit
    d = r.choice([(5, 0), (0, 5), (4, 3), (3, 4), (-3, 4), (-4, 3)])
    dist = 60 * r.choice([1, 2, 3, 7])
    xs, ys = [p[0] for s in path for p in s["p"]], [p[1] for s in path for p in s["p"]]
    e = dict(k="hatched", path=path, dir=d, dist=dist, fmt=fmt, failed="", lines=[], box=[1000 * v for v in (min(xs), min(ys), max(xs), max(ys))])

    def make():
        c = canvas.canvas()
        c.draw(polylib.build(r, path, r.choice(["path", "normpath"])), [deco.linehatched(dist / S * unit.t_pt, math.degrees(math.atan2(d[1], d[0])), [col(3)])])
        res = []
        for o in write(c, fmt):
            assert o["op"] == "stroke" and HEX[o["color"]] == 3
            (a,), (b,) = o["d"][0][1], o["d"][1][1]
            res.append(dict(a=[rd(a[0]), rd(a[1])], b=[rd(b[0]), rd(b[1])], clips=o["clips"]))
        return res
    o = guard(make)
    if o.ok:
        e["lines"] = o.value
    else:
        e["failed"] = str(o.exc)
    return e


def gradient(r, fmt):
    from pyx import canvas, deco, color
    steps = r.choice([2, 3, 4, 5, 6, 10])
    # a path which does not meet itself
    x, y, pts = 60 * r.randint(-5, 5), 60 * r.randint(-5, 5), []
    pts.append([x, y])
    for i in range(r.randint(1, 4)):
        dx, dy = r.choice([(1, 0), (0, 1), (3, 4), (4, 3)])
        n = 60 * steps * r.choice([1, 2])
        x, y = x + n * dx, y + n * dy
        pts.append([x, y])
    path = [dict(p=pts, z=False)]
    if r.random() < 0.3:
        path.append(dict(p=[[p[0] + 12000, p[1]] for p in pts], z=False))
    e = dict(k="gradient", path=path, steps=steps, fmt=fmt, failed="", got=[])

    class grad(color.gradient):
        def __init__(self):
            pass

        def select(self, index, n):
            assert n == steps
            return color.rgb((index + 1) / 20, 0, 0)

    def make():
        c = canvas.canvas()
        c.draw(polylib.build(r, path, r.choice(["path", "normpath"])), [deco.colorgradient(grad(), steps=steps)])
        res = []
        for o in write(c, fmt):
            i = int(round(int(o["color"][1:3], 16) / 255 * 20))
            res.append(dict(color=i, subs=[dict(p=[[(v + 500) // 1000 for v in q] for q in s["p"]], z=s["z"]) for s in subpaths(o["d"])]))
        return res
    o = guard(make)
    if o.ok:
        e["got"] = o.value
    else:
        e["failed"] = str(o.exc)
    return e


def corners(path):
    res, t = set(), 0
    for sub in path:
        pts = sub["p"] + ([sub["p"][0]] if sub["z"] and sub["p"][-1] != sub["p"][0] else [])
        for a, b in zip(pts, pts[1:]):
            res.add(t)
            t += polylib.length([dict(p=[a, b], z=False)])
    return res - {0}


def textpos(path, it):
    total = polylib.length(path)
    return it["v"] if it["mode"] == "begin" else total - it["v"] if it["mode"] == "end" else it["v"] * total // 4


def exclude(r, path):
    """parts of a path taken out in some order, as lengths or as parameters"""
    from pyx import deco, unit
    total, b = polylib.length(path), bounds(path)
    free = [x for x in range(0, total + 1, 30) if x not in b[1:-1]]
    ranges = []
    for i in range(r.choice([1, 2, 2, 3, 4])):
        x, y = sorted([r.choice(free), r.choice(free)]) if r.random() < 0.5 else (lambda k: (free[k], free[min(len(free) - 1, k + r.randint(1, 6))]))(r.randrange(len(free)))
        # what only touches may be joined or not
        if x < y and not any(x == e or y == s for s, e in ranges):
            ranges.append((x, y))
    e = dict(k="ranges", path=path, ranges=ranges, failed="", got=[], bbox=[])

    def make():
        n = polylib.build(r, path, "normpath")
        dp = deco.decoratedpath(n)
        dp.ensurenormpath()
        for x, y in ranges:
            par = [n.arclentoparam_pt(x / S), n.arclentoparam_pt(y / S)]
            if r.random() < 0.3:
                par = [x / S * unit.t_pt, y / S * unit.t_pt]
            dp.excluderange(*par)
        p = dp.strokepath()
        return [s for s in polylib.shape(p) if len(s["p"]) > 1], polylib.shape(n)
    o = guard(make)
    if o.ok:
        e["got"], after = o.value
        if after != [dict(p=[[1000 * v for v in q] for q in s["p"]], z=s["z"]) for s in path]:
            e["failed"] = "the path itself has changed"
    else:
        e["failed"] = str(o.exc)
    return e


def scaled(path, f):
    return [dict(p=[[x * f, y * f] for x, y in s["p"]], z=s["z"]) for s in path]


def apart(path, items):
    """the ends left out do not meet exactly, and do not end where a subpath does"""
    b = bounds(path)
    f = [min(a["size"], conlen(a)) for a in items if a["t"] == "arrow" and a["pos"] == 0 and a["rev"]]
    k = [b[-1] - min(a["size"], conlen(a)) for a in items if a["t"] == "arrow" and a["pos"] == 4 and not a["rev"]]
    f, k = max(f, default=0), min(k, default=b[-1])
    return f != k and f not in b[1:] and k not in b[:-1]


def run(ctx):
    r = ctx.rng
    traces = []
    res = ctx.model_check("DecoMC", constants=dict(MaxSegs=ctx.n(2, 3)), invariants=["Stays", "Heads", "Emit"], label="small paths with two arrows", heap="8g", timeout=2000)
    small = [json.loads(x[1:]) for x in res.prints]
    ctx.note(decorated=len(small))
    k = ctx.n(1500, 15000)
    for path, items in small if len(small) <= k else r.sample(small, k):
        traces.append(dict(ev=[paint(r, path, items, r.choice([0, 2]), r.choice([0, 3, 5]), r.choice(["eps", "pdf", "svg"]))]))
    n = ctx.n(1500, 20000)
    while len(traces) < k + n:
        path = scaled(polylib.random_path(r, dots=False), r.choice([1, 2, 5]))
        total = polylib.length(path)
        items = []
        for i in range(r.choice([0, 1, 1, 2, 3])):
            it = arrow(r) if r.random() < 0.7 else text(r, total)
            if it["t"] == "arrow" and not fits(path, it):
                continue
            # where a text is at the end of a line there are two directions
            if it["t"] == "text" and (textpos(path, it) in corners(path) or (textpos(path, it) == total and len(path[-1]["p"]) == 1)):
                continue
            items.append(it)
        if not apart(path, items):
            continue
        fill, stroke = r.choice([(0, 0), (0, 5), (5, 0), (2, 5), (1, 3), (0, 3), (4, 0)])
        traces.append(dict(ev=[paint(r, path, items, fill, stroke, r.choice(["eps", "pdf", "svg"]), r.choice([0, 0, 0.4]))]))
    for i in range(ctx.n(500, 6000)):
        traces.append(dict(ev=[exclude(r, polylib.random_path(r, dots=False))]))
    for i in range(ctx.n(150, 2000)):
        traces.append(dict(ev=[hatch(r, polylib.random_path(r, dots=False), r.choice(["eps", "pdf", "svg"]))]))
    for i in range(ctx.n(250, 3000)):
        traces.append(dict(ev=[gradient(r, r.choice(["eps", "pdf", "svg"]))]))

    def key(t, l, why):
        e = t["ev"][l - 1]
        return "deco:%s:%s:%s" % (e["k"], why, e["failed"][:60])

    def describe(t, l, why):
        return "%s: %s" % (why, json.dumps(t["ev"][l - 1])[:900])
    ctx.validate("DecoTrace", traces, key=key, describe=describe, heap="12g", chunk=1500)
    ctx.sample({"decorated path": traces[-500]["ev"][0]})
