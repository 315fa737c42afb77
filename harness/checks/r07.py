"""R07: plotted lines and symbols are exactly what lies inside of the graph (spec/Clipping.tla, ClippingMC.tla, ClippingTrace.tla)."""
import io, json, math
from vp import guard
import paints, stubtext

BADVALUES = [None, "invalid", "", [1]]


def rgb(i):
    return ((i // 4096 % 64) * 4 / 255.0, (i // 64 % 64) * 4 / 255.0, (i % 64) * 4 / 255.0)


def hexof(i):
    return "#%02x%02x%02x" % (i // 4096 % 64 * 4, i // 64 % 64 * 4, i % 64 * 4)


def plots(cases, lo, hi, opt, r):
    """plot all cases (lists of points) into one graph; returns per case (subpaths, symbols) of positions in 0..1"""
    from pyx import color, graph, unit, deco, document
    from pyx.graph import axis, style
    W, H, x0, y0 = 300.0, 200.0, opt.get("x0", 0.0), opt.get("y0", 0.0)
    pt = lambda v: v * unit.t_pt
    kind = opt["kind"]
    dim = opt.get("dim", 2)
    val = (lambda k: 10.0 ** k) if kind == "log" else (lambda k: float(k))
    ax = (lambda: axis.log(min=val(lo), max=val(hi), parter=None)) if kind == "log" else (lambda: axis.lin(min=lo, max=hi, parter=None, reverse=kind == "reverse"))
    if dim == 2:
        if opt.get("x2"):
            g = graph.graphxy(xpos=pt(x0), ypos=pt(y0), width=pt(W), height=pt(H), x=axis.lin(min=-7, max=99, parter=None), x2=ax(), y=ax(), flipped=opt["flipped"])
        else:
            g = graph.graphxy(xpos=pt(x0), ypos=pt(y0), width=pt(W), height=pt(H), x=ax(), y=ax(), flipped=opt["flipped"])
    else:
        proj = graph.graphxyz.parallel(30, 20) if opt["par"] else graph.graphxyz.central(12, 25, 35)
        g = graph.graphxyz(size=pt(W), x=ax(), y=ax(), z=ax(), projector=proj)
    for i, ps in enumerate(cases):
        rows = []
        for p in ps:
            if not p:
                bad = r.choice(BADVALUES)
                row = [val(lo)] * dim
                row[r.randrange(dim)] = bad
                if kind == "log" and r.random() < 0.5:
                    row[0] = r.choice([0.0, -1.0])
            else:
                row = [val(c) for c in p]
            rows.append(row)
        col = color.rgb(*rgb(i + 1))
        names = dict(zip(["x2" if opt.get("x2") else "x", "y", "z"], range(1, dim + 1)))
        styles = [style.line([col]), style.symbol(symbol=style.symbol.plus, size=pt(2), symbolattrs=[col])]
        if opt.get("usenames") and dim == 2 and not opt.get("x2"):
            names = {"u": 1, "w": 2}
            styles = [style.pos(usenames={"x": "u", "y": "w"})] + styles
        g.plot(graph.data.points(rows, title=None, **names), styles)
    f = io.BytesIO()
    fmt = opt["fmt"]
    if fmt == "pdf":
        document.document([document.page(g)]).writePDFfile(f, compress=False)
    else:
        getattr(g, "write%sfile" % fmt.upper())(f)
    back = {hexof(i + 1): i for i in range(len(cases))}
    res = [([], []) for _ in cases]
    for p in paints.READ[fmt](f.getvalue()):
        if p["op"] != "stroke" or p["color"] not in back:
            continue
        subs = []
        for k, q in p["d"]:
            if k == "m":
                subs.append([q[0]])
            else:
                subs[-1].extend(q)
        if dim == 2:
            conv = lambda q: ((q[0] - x0) / W, (q[1] - y0) / H)
            subs = [[conv(q) for q in s] for s in subs]
            if opt["flipped"]:
                subs = [[(b, a) for a, b in s] for s in subs]
            if kind == "reverse":
                subs = [[(1 - a, 1 - b) for a, b in s] for s in subs]
        out = res[back[p["color"]]]
        issym = len(subs) == 2 and all(len(s) == 2 for s in subs) and p["lw"] and _plus(subs, (W, H) if dim == 2 and not opt["flipped"] else (H, W) if dim == 2 else (1, 1))
        if issym:
            out[1].append(tuple(0.5 * (subs[0][0][i] + subs[0][1][i]) for i in range(2)))
        else:
            out[0].extend(subs)
    return res, g


def _plus(subs, scale):
    (a, b), (c, d) = subs
    mid = lambda p, q: (0.5 * (p[0] + q[0]), 0.5 * (p[1] + q[1]))
    m, n = mid(a, b), mid(c, d)
    dist = lambda p, q: math.hypot((p[0] - q[0]) * scale[0], (p[1] - q[1]) * scale[1])
    return dist(m, n) < 1e-2 and abs(dist(a, b) - 2.83) < 0.05 and abs(dist(c, d) - 2.83) < 0.05


def dedup(s, eps=1e-5):
    res = []
    for p in s:
        if not res or any(abs(a - b) > eps for a, b in zip(p, res[-1])):
            res.append(p)
    return res


def options(n, r):
    return dict(kind=["lin", "log", "lin", "reverse"][n % 4], fmt=["eps", "pdf", "svg"][n % 3], flipped=n % 5 == 2, x2=n % 7 == 3, usenames=n % 6 == 5, x0=0.0 if n % 2 else 40.0, y0=0.0 if n % 2 else -60.0)


def replay(ctx):
    for dim, coords, maxlen, n in [(2, "{0, 3, 4, 7, 9}", 3, ctx.n(6000, 18000)), (2, "{1, 3, 5, 8}", ctx.n(3, 4), ctx.n(1500, 40000)), (3, "{2, 4, 7, 8}", 2, ctx.n(1500, 4200))]:
        r = ctx.model_check("ClippingMC", constants=dict(Dim=dim, Lo=0, Hi=4, Off=3, MaxLen=maxlen), raw=dict(Coords="= " + coords), invariants=["AllInside", "Backwards", "Whole", "EndsRight", "Emit"],
                            label="all %d-dimensional plots of up to %d points" % (dim, maxlen), heap="8g")
        cases = [json.loads(p[1:]) for p in r.prints]
        if len(cases) > n:
            cases = ctx.rng.sample(cases, n)
        batch = 250
        for b in range(0, len(cases), batch):
            part = cases[b:b + batch]
            opt = options(b // batch, ctx.rng)
            if dim == 3 and opt["kind"] == "reverse":
                opt["kind"] = "lin"
            opt["dim"], opt["par"] = dim, (b // batch) % 2 == 0
            o = guard(plots, [c["ps"] for c in part], 0, 4, opt, ctx.rng, seconds=120)
            if not o.ok:
                # find the culprit
                for c in part:
                    o = guard(plots, [c["ps"]], 0, 4, opt, ctx.rng)
                    if not o.ok:
                        ctx.violation("replay:refused:%d" % dim, "plot of %r fails: %s" % (c["ps"], o.exc), c)
                        break
                continue
            res, g = o.value
            for c, (lines, syms) in zip(part, res):
                ctx.traces += 1
                want = [[[q[0] / q[1] / 4.0 for q in p] for p in s] for s in c["l"]]
                wsym = [[x / 4.0 for x in p] for p in c["ps"] if p and all(0 <= x <= 4 for x in p)]
                if dim == 3:
                    # the projection of the graph itself is not the point here
                    want = [[g.vpos_pt(*p) for p in s] for s in want]
                    wsym = [g.vpos_pt(*p) for p in wsym]
                tol = 1e-5 if dim == 2 else 2e-3
                got = [s for s in (dedup(s, tol) for s in lines) if len(s) > 1]
                want = [s for s in (dedup(s, tol) for s in want) if len(s) > 1]
                near = lambda p, q: len(p) == len(q) and all(abs(a - b) <= tol for a, b in zip(p, q))
                if len(got) != len(want) or not all(len(s) == len(t) and all(near(p, q) for p, q in zip(s, t)) for s, t in zip(got, want)):
                    ctx.violation("replay:line:%dd:%s" % (dim, "gap" if any(not p for p in c["ps"]) else "cut"), "points %r in a graph showing 0..4 (%r): lines %r instead of %r" % (c["ps"], opt, got, want), c)
                elif len(syms) != len(wsym) or not all(near(p, q) for p, q in zip(syms, wsym)):
                    ctx.violation("replay:symbol:%dd" % dim, "points %r in a graph showing 0..4 (%r): symbols %r instead of %r" % (c["ps"], opt, syms, wsym), c)
        ctx.sample({"case": cases[len(cases) // 2]}, 3)


def longer(ctx, n):
    r = ctx.rng
    traces = []
    q = lambda v: int(round(1000 * v))
    for k in range(n // 40):
        lo, hi = r.choice([(0, 10), (-5, 7), (3, 9), (0, 100)])
        opt = options(r.randrange(420), r)
        if opt["kind"] == "log":
            lo, hi = 0, 10
        cases = []
        for _ in range(40):
            d = hi - lo
            c = lambda: r.randint(lo - d, hi + d) if r.random() < 0.6 else r.choice([lo, hi, r.randint(lo, hi)])
            cases.append([[] if r.random() < 0.12 else [c(), c()] for _ in range(r.randint(1, 14))])
        o = guard(plots, cases, lo, hi, opt, r, seconds=120)
        for i, c in enumerate(cases):
            one = o
            if not o.ok:
                one = guard(plots, [c], lo, hi, opt, r)
                v = one.value[0][0] if one.ok else ([], [])
            else:
                v = o.value[0][i]
            traces.append(dict(opt=opt, ev=[dict(ps=c, lo=lo, hi=hi, ok=one.ok, lines=[[[q(x) for x in p] for p in s] for s in v[0]], syms=[[q(x) for x in p] for p in v[1]])]))
    ctx.validate("ClippingTrace", traces, key=lambda t, l, why: "trace:" + why, describe=lambda t, l, why: "%s: %s" % (why, json.dumps(t)))


def run(ctx):
    from pyx import text
    StubEngine, StubBox = stubtext.make()
    saved = text.defaulttextengine
    text.defaulttextengine = StubEngine(0.02)
    try:
        replay(ctx)
        longer(ctx, ctx.n(1600, 20000))
    finally:
        text.defaulttextengine = saved
