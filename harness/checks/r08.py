"""R08: error bars, rectangles, impulses, histograms, bars and arrows mark exactly their data (spec/Marks.tla, MarksMC.tla, MarksTrace.tla)."""
import io, json, math
from vp import guard
import paints, stubtext
from checks.r07 import rgb, hexof

BADVALUES = [None, "invalid", "", [1]]
UNIT = 60.0
CAP = 7.0


class Indexed:
    """a gradient giving every plotted rectangle its own color"""

    def __init__(self, n):
        self.n = n

    def getcolor(self, v):
        from pyx import color
        return color.rgb(*rgb(int(round(v * self.n))))


def write(g, fmt):
    from pyx import document
    f = io.BytesIO()
    if fmt == "pdf":
        document.document([document.page(g)]).writePDFfile(f, compress=False)
    else:
        getattr(g, "write%sfile" % fmt.upper())(f)
    return paints.READ[fmt](f.getvalue())


def subpaths(d, conv):
    res = []
    for k, q in d:
        if k == "m":
            res.append([conv(q[0])])
        elif k == "z":
            res[-1].append(res[-1][0])
        elif k == "l":
            res[-1].append(conv(q[0]))
        else:
            res[-1].append((math.nan, math.nan))
    return res


def unitedges(subs, lo):
    """unit edges of axis-parallel subpaths; None when something is not on the grid"""
    res, off = set(), False
    for s in subs:
        for (a, b), (c, d) in zip(s[:-1], s[1:]):
            r = [round(v) if v == v else 10 ** 6 for v in (a, b, c, d)]
            if any(abs(v - w) > 2e-3 for v, w in zip(r, (a, b, c, d))) or (r[0] != r[2] and r[1] != r[3]):
                off = True
            elif r[0] != r[2]:
                res |= {("h", x + lo, r[1] + lo) for x in range(min(r[0], r[2]), max(r[0], r[2]))}
            else:
                res |= {("v", r[0] + lo, y + lo) for y in range(min(r[1], r[3]), max(r[1], r[3]))}
    return res, off


def unitcells(subs, lo, n):
    """unit cells filled by the nonzero rule"""
    _, off = unitedges([s + s[:1] for s in subs], lo)
    res = set()
    if off:
        return res, True
    xs = [round(p[0]) for s in subs for p in s]
    ys = [round(p[1]) for s in subs for p in s]
    for x in range(min(xs), max(xs)):
        for y in range(min(ys), max(ys)):
            wind = 0
            for s in subs:
                s = s + s[:1]
                for (a, b), (c, d) in zip(s[:-1], s[1:]):
                    if abs(a - c) < 1e-3 and round(a) > x:
                        if min(b, d) < y + 0.5 < max(b, d):
                            wind += 1 if d > b else -1
            if wind:
                res.add((x + lo, y + lo))
    return res, False


def graphof(opt, lo, hi):
    from pyx import graph, unit
    from pyx.graph import axis
    W = (hi - lo) * UNIT
    pt = lambda v: v * unit.t_pt
    kind = opt["kind"]
    val = (lambda k: 10.0 ** k) if kind == "log" else (lambda k: float(k))
    ax = (lambda: axis.log(min=val(lo), max=val(hi), parter=None)) if kind == "log" else (lambda: axis.lin(min=lo, max=hi, parter=None, reverse=kind == "reverse"))
    g = graph.graphxy(xpos=pt(opt["x0"]), ypos=pt(opt["y0"]), width=pt(W), height=pt(W), x=ax(), y=ax(), flipped=opt["flipped"])

    def conv(q):
        p = ((q[0] - opt["x0"]) / UNIT, (q[1] - opt["y0"]) / UNIT)
        if opt["flipped"]:
            p = (p[1], p[0])
        if kind == "reverse":
            p = (hi - lo - p[0], hi - lo - p[1])
        return p
    return g, conv, val


def column(r, vals, val, log):
    """values with missing ones in any of the ways to be missing"""
    return [val(v[0]) if v else (r.choice(BADVALUES + ([0.0, -1.0] if log else []))) for v in vals]


def points(columns):
    from pyx import graph
    names = sorted(columns)
    n = len(columns[names[0]])
    return graph.data.points([[columns[c][i] for c in names] for i in range(n)], title=None, **{c: k + 1 for k, c in enumerate(names)})


def plot(g, case, col, val, opt, r):
    """plot one case with color col"""
    from pyx import color, deco, unit
    from pyx.graph import style
    k, log = case["k"], opt["kind"] == "log"
    ax = ["x", "y"]
    opts = lambda what, i: [row[what][i] for row in case["rows"]]
    fv = lambda f: None if f == [] else val(f[0])
    if k in ("error", "rect"):
        cols = {}
        for i in range(2):
            pos, lo, hi = opts("p", i), opts("min", i), opts("max", i)
            if k == "error" and (any(pos) or not (any(lo) or any(hi)) or r.random() < 0.5):
                cols[ax[i]] = column(r, pos, val, log)
            delta = ax[i] in cols and not log and all(p or not (a or b) for p, a, b in zip(pos, lo, hi)) and r.random() < 0.5
            d = lambda es, s: column(r, [[s * (e[0] - p[0])] if e else [] for e, p in zip(es, pos)], float, False)
            if delta and k == "error":
                if all((not a and not b) or (a and b and b[0] - p[0] == p[0] - a[0]) for a, b, p in zip(lo, hi, pos)) and r.random() < 0.8:
                    cols["d" + ax[i]] = d(hi, 1)
                else:
                    # deltas in one and positions in the other direction may be mixed
                    if any(lo) or r.random() < 0.5:
                        cols["d%smin" % ax[i]] = d(lo, -1)
                    if any(hi) or r.random() < 0.5:
                        cols["%smax" % ax[i] if r.random() < 0.3 else "d%smax" % ax[i]] = None
                    for c in list(cols):
                        if cols[c] is None:
                            cols[c] = d(hi, 1) if c[0] == "d" else column(r, hi, val, log)
            else:
                if any(lo) or k == "rect" or (r.random() < 0.5):
                    cols[ax[i] + "min"] = column(r, lo, val, log)
                if any(hi) or k == "rect" or (r.random() < 0.5):
                    cols[ax[i] + "max"] = column(r, hi, val, log)
            if not any(c.strip("d").startswith(ax[i]) for c in cols):
                cols[ax[i]] = column(r, pos, val, log)
        if k == "error":
            g.plot(points(cols), [style.errorbar(size=CAP * unit.t_pt, errorbarattrs=[color.rgb(*rgb(col))])])
        else:
            cols["color"] = [float(col)] * len(case["rows"])
            from pyx.graph import axis
            g.plot(points(cols), [style.rect(gradient=Indexed(4000), coloraxis=axis.lin(min=0, max=4000), keygraph=None)])
    elif k == "impulse":
        cols = {a: column(r, opts("p", i), val, log) for i, a in enumerate(ax)}
        if log and case["f"] == []:
            pass
        g.plot(points(cols), [style.impulses(lineattrs=[color.rgb(*rgb(col))], fromvalue=fv(case["f"]), frompathattrs=None, valueaxisindex=case["vi"] - 1)])
    elif k in ("box", "step", "full", "area", "areastep"):
        a, b = ("x", "y") if case["vi"] == 2 else ("y", "x")
        kw = dict(steps=int(k in ("step", "areastep")), fromvalue=fv(case["f"]), frompathattrs=None, fillable=int(k in ("full", "area", "areastep")))
        if case["auto"]:
            cols = {a: [val(p) for p in case["ps"]], b: column(r, case["vs"], val, log)}
            kw.update(autohistogramaxisindex=2 - case["vi"], autohistogrampointpos=case["pp"] / 2.0)
        else:
            rows = case["rows"]
            lo, hi, vs = ([[row[j]] if row else [] for row in rows] for j in range(3))
            for i, row in enumerate(rows):
                if not row:
                    # one missing value is enough
                    e = [[r.randint(-1, 3)] for _ in range(3)]
                    for j in r.sample(range(3), r.randint(1, 3)):
                        e[j] = []
                    lo[i], hi[i], vs[i] = e
            cols = {a + "min": column(r, lo, val, log), a + "max": column(r, hi, val, log), b: column(r, vs, val, log)}
        c = color.rgb(*rgb(col))
        g.plot(points(cols), [style.histogram(lineattrs=[deco.stroked.clear, deco.filled([c])] if k in ("area", "areastep") else [c], **kw)])
    elif k == "arrow":
        cols = {a: column(r, opts("p", i), val, log) for i, a in enumerate(ax)}
        cols["size"] = [row["len"] / 100.0 for row in case["rows"]]
        cols["angle"] = [90.0 * row["dir"] + 360 * r.randint(-1, 1) for row in case["rows"]]
        c = color.rgb(*rgb(col))
        g.plot(points(cols), [style.arrow(linelength=0.1 * UNIT * unit.t_pt, arrowpos=case["pos"] / 2.0, lineattrs=[c], decorator=None)])
    else:
        raise ValueError(k)


def record(case, ps, conv, w):
    ev = dict(case, w=w, failed="", off=False, edges=[], cells=[], caps=[], arrows=[])
    edges, cells, caps = set(), set(), set()
    n = w["hi"] - w["lo"]
    for p in ps:
        subs = subpaths(p["d"], conv)
        if p["op"] == "fill":
            c, off = unitcells(subs, w["lo"], n)
            cells |= c
            ev["off"] |= off
            continue
        if case["k"] == "arrow":
            for s in subs:
                ev["arrows"].append([int(round(1000 * v)) for v in s[0] + s[-1]])
            continue
        if case["k"] == "error" and len(subs) == 1 and len(subs[0]) == 2:
            (a, b), (c, d) = subs[0]
            if abs(math.hypot(a - c, b - d) * UNIT - CAP) < 0.01:
                m = (0.5 * (a + c), 0.5 * (b + d))
                i = 2 if abs(b - d) < 1e-3 else 1
                if any(abs(v - round(v)) > 2e-3 for v in m):
                    ev["off"] = True
                caps.add((i, round(m[0]) + w["lo"], round(m[1]) + w["lo"]))
                continue
        e, off = unitedges(subs, w["lo"])
        edges |= e
        ev["off"] |= off
    ev["edges"], ev["cells"], ev["caps"] = (sorted(list(x) for x in s) for s in (edges, cells, caps))
    return ev


def empty(case, w, failed):
    return dict(case, w=w, failed=failed, off=False, edges=[], cells=[], caps=[], arrows=[])


def together(ctx, cases, w, opt, r):
    """plot all cases into one graph and record them"""
    def do(part):
        g, conv, val = graphof(opt, w["lo"], w["hi"])
        for i, c in enumerate(part):
            plot(g, c, i + 1, val, opt, r)
        by = {}
        for p in write(g, opt["fmt"]):
            by.setdefault(p["color"], []).append(p)
        return [record(c, by.get(hexof(i + 1), []), conv, w) for i, c in enumerate(part)]
    o = guard(do, cases, seconds=120)
    if o.ok:
        return o.value
    res = []
    for c in cases:
        o = guard(do, [c])
        res.append(o.value[0] if o.ok else empty(c, w, o.exc))
    return res


BLANK = dict(rows=[], f=[], vi=2, auto=False, ps=[], vs=[], pp=0, s=1, rel=[], pos=0)


def options(n):
    kinds = ["lin", "log", "reverse", "lin"]
    return dict(kind=kinds[n % 4], fmt=["eps", "pdf", "svg"][n % 3], flipped=n % 5 == 2, x0=0.0 if n % 2 else 40.0, y0=0.0 if n % 2 else -60.0)


def basevalue(f, opt, w):
    """no base value: the begin of the axis, which is its upper value when it is reversed"""
    return [w["hi"]] if f == [] and opt["kind"] == "reverse" else f


def replay(ctx):
    plan = [("hist", dict(Mode="hist", Xs={0, 2, 3, 5}, Vs={0, 2, 3, 5}, Off=1, Lo=0, Hi=3, MaxLen=2), ctx.n(625, 625)),
            ("hist3", dict(Mode="hist", Xs={0, 2, 3}, Vs={0, 2, 3}, Off=1, Lo=0, Hi=1, MaxLen=3), ctx.n(500, 1110)),
            ("error", dict(Mode="error", Xs={0}, Vs={0, 2, 3, 5}, Off=1, Lo=0, Hi=3, MaxLen=1), ctx.n(1000, 2000))]
    for name, consts, n in plan:
        r = ctx.model_check("MarksMC", constants=consts, invariants=["StepsInBoxes", "OutlineIsBoxes", "Cut", "EachBinReached", "CapsEnd", "BarsInside", "Emit"], label="all " + name, heap="8g")
        items = [json.loads(p[1:]) for p in r.prints]
        if len(items) > n:
            items = ctx.rng.sample(items, n)
        w = dict(lo=consts["Lo"], hi=consts["Hi"])
        cases = []
        for it in items:
            if name.startswith("hist"):
                for v in it["v"]:
                    for k, want in (("box", "box"), ("step", "step"), ("area", "area"), ("areastep", "area"), ("full", "full")):
                        if k == "full" and not v["simple"]:
                            continue
                        cases.append((dict(BLANK, k=k, rows=it["rows"], f=v["f"]), v[want], []))
            else:
                cases.append((dict(BLANK, k="error", rows=it["rows"]), it["bars"], it["caps"]))
        batch = 400
        for b in range(0, len(cases), batch):
            part = cases[b:b + batch]
            opt = options(b // batch)
            if opt["kind"] == "reverse":
                # no base value means the begin of the axis
                part = [c for c in part if c[0]["f"] != []] if name != "error" else part
            vi = 1 + (b // batch) % 2 if name != "error" else 2
            got = together(ctx, [dict(c[0], vi=vi) for c in part], w, opt, ctx.rng)
            for (c, want, caps), ev in zip(part, got):
                ctx.traces += 1
                key = "replay:%s:" % c["k"]
                if ev["failed"]:
                    ctx.violation(key + "refused", "%r: %s" % (c, ev["failed"]), ev)
                    continue
                area = c["k"].startswith("area")
                have = {tuple(x) for x in (ev["cells"] if area else ev["edges"])}
                if vi == 1:
                    have = {(x[1], x[0]) for x in have} if area else {("v" if x[0] == "h" else "h", x[2], x[1]) for x in have}
                if ev["off"] or have != {tuple(x) for x in want} or (ev["edges"] if area else ev["cells"]):
                    ctx.violation(key + ("area" if area else "strokes"), "%r in %r (%r): %r instead of %r" % (c, w, opt, sorted(have), sorted(want)), ev)
                elif {tuple(x) for x in ev["caps"]} != {tuple(x) for x in caps}:
                    ctx.violation(key + "caps", "%r in %r (%r): caps %r instead of %r" % (c, w, opt, ev["caps"], caps), ev)
        ctx.sample({"case": cases[len(cases) // 2][0]}, 4)


def randomcase(r, w):
    lo, hi = w["lo"], w["hi"]
    v = lambda: r.choice([lo - 2, lo - 1, lo, hi, hi + 1, hi + 3] + [r.randint(lo, hi)] * 5)
    o = lambda p=0.1: [] if r.random() < p else [v()]
    k = r.choice(["error", "error", "rect", "impulse", "box", "step", "area", "areastep", "full", "arrow"])
    c = dict(BLANK, k=k)
    if k in ("error", "rect"):
        rows = []
        have = [r.random() < 0.75 for _ in range(4)]
        for _ in range(r.randint(1, 4) if k == "error" else 1):
            row = dict(p=[o(), o()], min=[[], []], max=[[], []])
            for i in range(2):
                a, b = sorted([v(), v()])
                p = row["p"][i]
                if k == "error" and p:
                    a, b = p[0] - r.randint(0, 4), p[0] + r.randint(0, 4)
                    if r.random() < 0.5:
                        b = 2 * p[0] - a
                row["min"][i] = [a] if (have[2 * i] or k == "rect") and r.random() < 0.9 else []
                row["max"][i] = [b] if (have[2 * i + 1] or k == "rect") and r.random() < 0.9 else []
            rows.append(row)
        c["rows"] = rows
    elif k in ("impulse", "arrow"):
        c["rows"] = [dict(p=[o(), o()], len=r.choice([0, 100, 250, 300, 1000]), dir=r.randint(0, 3)) for _ in range(r.randint(1, 6))]
        c["f"], c["vi"], c["pos"] = o(0.3), r.choice([1, 2]), r.randint(0, 2)
    else:
        c["f"], c["vi"] = o(0.3), r.choice([1, 2])
        n = r.randint(1, 9)
        if r.random() < 0.4:
            d = r.choice([-2, 2, 1, -1, 3])
            start = r.randint(lo - 1, hi + 1)
            c.update(auto=True, pp=r.choice([0, 2] + [1] * (d % 2 == 0)), ps=[start + d * i for i in range(max(n, 2))])
            c["vs"] = [o() for _ in c["ps"]]
        else:
            x, rows = r.randint(lo - 2, hi), []
            for _ in range(n):
                if r.random() < 0.12:
                    rows.append([])
                    continue
                if r.random() < 0.15:
                    x = r.randint(lo - 1, hi)
                y = x + r.choice([1, 1, 2, 3])
                rows.append([x, y, v()])
                x = y
            c["rows"] = rows
        if k in ("areastep",):
            # bins which overlap are not filled properly by a single line of steps
            pass
    return c


def cutof(c, w):
    """the number of cuts allowed for the outlines of fillable boxes (Simple in the specification)"""
    if c["auto"]:
        d = c["ps"][1] - c["ps"][0]
        rows = [[p - c["pp"] * d // 2, p + (2 - c["pp"]) * d // 2, v[0]] if v else [] for p, v in zip(c["ps"], c["vs"])]
    else:
        rows = c["rows"]
    out = lambda v: not w["lo"] <= v <= w["hi"]
    base = c["f"][0] if c["f"] else w["lo"]
    return max(sum(out(v) for v in row) + out(base) for row in rows if row) if any(rows) else 0


def longer(ctx, n):
    r = ctx.rng
    traces = []
    for k in range(n // 50):
        lo, hi = r.choice([(0, 5), (-4, 3), (2, 10), (0, 1)])
        w = dict(lo=lo, hi=hi)
        opt = options(r.randrange(60))
        cases = []
        while len(cases) < 50:
            c = randomcase(r, w)
            if c["k"] == "full" and cutof(c, w) > 1:
                continue
            if c["k"] in ("areastep",) and not c["auto"] and overlapping(c["rows"]):
                continue
            if c["k"] == "arrow" and (opt["kind"] == "reverse" or opt["flipped"]):
                continue
            if c["k"] == "rect":
                c["f"] = []
            c["f"] = basevalue(c["f"], opt, w)
            cases.append(c)
        for ev in together(ctx, cases, w, opt, r):
            traces.append(dict(opt=opt, ev=[ev]))
    return traces


def overlapping(rows):
    cells = [set(range(a[0], a[1])) for a in rows if a]
    return sum(map(len, cells)) != len(set().union(*cells)) if cells else False


def bars(ctx, n):
    """bar graphs with stacked bars"""
    from pyx import color, deco, graph, unit
    from pyx.graph import axis, style
    r = ctx.rng
    traces = []
    for it in range(n):
        lo, hi = r.choice([(0, 4), (-3, 3), (1, 6)])
        w = dict(lo=lo, hi=hi)
        opt = options(r.randrange(60))
        fmt, kind = opt["fmt"], opt["kind"]
        names = r.randint(1, 5)
        stages = r.randint(1, 4)
        rel = [s for s in range(1, stages) if r.random() < 0.5]
        vi = r.choice([1, 2])
        f = [] if r.random() < 0.3 else [r.randint(lo - 1, hi + 1)]
        v = lambda s: [] if r.random() < 0.1 else [r.randint(-2, 3) if s - 1 in rel else r.randint(lo - 2, hi + 2)]
        if kind == "log":
            rel = []
        val = (lambda k: 10.0 ** k) if kind == "log" else float
        rows = [[v(s) for s in range(1, stages + 1)] for _ in range(names)]
        U = 40.0

        def do():
            value = axis.log(min=val(lo), max=val(hi), parter=None) if kind == "log" else axis.lin(min=lo, max=hi, parter=None, reverse=kind == "reverse")
            bar = axis.bar(dist=0, firstdist=0, lastdist=0, painter=None)
            size = [names * U * unit.t_pt, (hi - lo) * U * unit.t_pt]
            a, b = ("x", "y") if vi == 2 else ("y", "x")
            if vi == 1:
                size.reverse()
            g = graph.graphxy(width=size[0], height=size[1], **{a: bar, b: value})
            cols = {a + "name": ["n%d" % i for i in range(names)]}
            for s in range(stages):
                cols[b if s == 0 else "s%d" % s] = [val(x[s][0]) if x[s] else None for x in rows]
            st = [style.barpos(fromvalue=None if f == [] else val(f[0]), frompathattrs=None)]
            for s in range(stages):
                if s:
                    st.append(style.stackedbarpos("s%d" % s, addontop=int(s in rel)))
                st.append(style.bar(barattrs=[deco.stroked.clear, color.rgb(*rgb(s + 1))]))
            g.plot(points(cols), st)
            by = {}
            for p in write(g, fmt):
                by.setdefault(p["color"], []).append(p)
            return by
        def conv(q):
            p = [q[0] / U, q[1] / U]
            i = 1 if vi == 2 else 0
            p[i] = (hi - p[i]) if kind == "reverse" else p[i] + lo
            return tuple(p)
        o = guard(do)
        evs = []
        for s in range(1, stages + 1):
            case = dict(BLANK, k="bar", rows=rows, f=[hi] if f == [] and kind == "reverse" else f, vi=vi, s=s, rel=rel)
            if not o.ok:
                evs.append(empty(case, w, o.exc))
                break
            ev = empty(case, w, "")
            cells, off = set(), False
            for p in o.value.get(hexof(s), []):
                subs = subpaths(p["d"], conv)
                c, x = unitcells(subs, 0, 0) if p["op"] == "fill" else (set(), True)
                cells |= c
                off |= x
            ev["cells"], ev["off"] = sorted(list(c) for c in cells), off
            evs.append(ev)
        traces.append(dict(opt=opt, ev=evs))
    return traces


def run(ctx):
    from pyx import text
    StubEngine, StubBox = stubtext.make()
    saved = text.defaulttextengine
    text.defaulttextengine = StubEngine(0.02)
    try:
        replay(ctx)
        traces = longer(ctx, ctx.n(4000, 30000)) + bars(ctx, ctx.n(300, 2500))
        ctx.sample({"trace": traces[len(traces) // 2]}, 4)
        ctx.validate("MarksTrace", traces, key=lambda t, l, why: "trace:%s:%s%s%s" % (t["ev"][l - 1]["k"], why, ":" + t["opt"]["kind"] if t["opt"]["kind"] != "lin" else "", ":" + t["ev"][l - 1]["failed"][:60] if why == "refused" else ""),
                     describe=lambda t, l, why: "%s: %s" % (why, json.dumps(dict(t["ev"][l - 1], opt=t["opt"]))))
    finally:
        text.defaulttextengine = saved
