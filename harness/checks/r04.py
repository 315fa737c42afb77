"""R04: axis ranges and the map from values to positions (spec/AxisMap.tla, AxisMC.tla, AxisTrace.tla)."""
import json, math
from fractions import Fraction
from scenes import BAD
from vp import guard
import stubtext

S = 10000


def histories(ctx):
    from pyx import path, unit
    from pyx.graph import axis
    from pyx.graph.axis import positioner
    StubEngine, StubBox = stubtext.make()
    depth = ctx.n(3, 4)
    r = ctx.model_check("AxisMC", constants=dict(MaxOps=depth), invariants=["Ends", "Monotone", "Encloses", "FixedStays", "SwapLaw", "Emit"],
                        properties=["MadeOnce"], label="all histories of %d operations" % depth)
    cases = [json.loads(p[1:]) for p in r.prints]
    ctx.note(histories=len(cases))
    if len(cases) > ctx.n(6000, 40000):
        cases = ctx.rng.sample(cases, ctx.n(6000, 40000))
    for n, c in enumerate(cases):
        cfg, ops = c["cfg"], c["ops"]
        log = n % 3 == 0
        neg = n % 6 == 3
        val = (lambda k: -10.0 ** -k if neg else 10.0 ** k) if log else float
        code = (lambda v: -math.log10(-v) if neg else math.log10(v)) if log else (lambda v: v)
        kw = dict(reverse=cfg["rev"], parter=None, painter=None)
        if cfg["min"]:
            kw["min"] = val(cfg["min"][0])
        if cfg["max"]:
            kw["max"] = val(cfg["max"][0])
        fall = cfg["fall"]
        if fall:
            if log:
                # widths are not meaningful in exponents
                fall = fall if len(fall) == 2 else []
            kw["fallbackrange"] = 2 * fall[0] if len(fall) == 1 else tuple(val(x) for x in fall) if fall else None
        if log and cfg["fall"] and len(cfg["fall"]) == 1:
            continue
        ctx.traces += 1
        linked = n % 2

        def f():
            a = (axis.log if log else axis.lin)(**kw)
            an = axis.anchoredaxis(a, StubEngine(0.02), "test")
            an.setpositioner(positioner.pathpositioner(path.line_pt(0, 0, 100, 0)))
            an.setcreatecall(lambda: an.create())
            other = an
            if linked:
                other = axis.linkedaxis(an, "linked")
                other.setpositioner(positioner.pathpositioner(path.line_pt(0, 0, 0, 100)))
                other.setcreatecall(lambda: other.create())
            for i, o in enumerate(ops):
                if o["k"] == "adjust":
                    xs = [val(x) for x in o["x"]]
                    junk = [None, "text", [], (1, 2)]
                    if n % 5 == 0:
                        xs = xs + junk[:2] if n % 2 else junk[2:] + xs
                    g = guard(an.adjustaxis, xs)
                    if not g.ok:
                        return i, "adjust", str(g.exc)
                    continue
                if o["k"] == "convert" and n % 4 == 2 and o["ok"]:
                    # the same by the geometry of an axis along a path
                    x, y = val(o["x"][0]), val(5)
                    v = o["p"][0] / o["p"][1]
                    if 0 <= v <= 1:
                        g = guard(lambda: [an.tickpoint_pt(x)[0], unit.topt(an.vtickpoint(v)[0]), an.basepath(x1=x).atbegin_pt()[0], an.basepath(x2=x).atend_pt()[0],
                                           an.vbasepath(min(v, 0.5), max(v, 0.5)).atbegin_pt()[0] + an.vbasepath(min(v, 0.5), max(v, 0.5)).atend_pt()[0] - 50]
                                  + [an.basepath(x, x).atend_pt()[0]][:0])
                        if not g.ok or any(abs(q / 100 - v) > 1e-5 for q in g.value):
                            return i, "geometry", "%r instead of %r" % (g, 100 * v)
                if o["k"] == "make":
                    g = guard(other.create)
                    res = None
                    if g.ok:
                        res = [code(an.data.min), code(an.data.max)]
                        good = o["ok"] and all(abs(x - y) < 1e-9 for x, y in zip(res, o["p"]))
                else:
                    g = guard(other.convert, val(o["x"][0]))
                    if g.ok:
                        res = g.value
                        good = o["ok"] and abs(res - o["p"][0] / o["p"][1]) < 1e-9
                if g.ok and not good:
                    return i, o["k"], "%r instead of %r" % (res, o["p"] if o["ok"] else "a refusal")
                if not g.ok and o["ok"]:
                    return i, o["k"], str(g.exc)
        o = guard(f)
        bad = o.value if o.ok else (0, "failure", str(o.exc))
        if bad:
            ctx.violation("history:%s:%s%s" % (bad[1], "log" if log else "lin", ":rev" if cfg["rev"] else ""),
                          "%s axis %r, operations %r: operation %d: %s" % ("log" if log else "linear", kw, [(x["k"], x["x"]) for x in ops], bad[0] + 1, bad[2]), c)
    ctx.sample({"history": cases[len(cases) // 2]}, 2)


def coder(kind, u):
    if kind == "lin":
        return lambda c: float(c * u), lambda v: rint(v / float(u))
    if kind == "log":
        return lambda c: 10.0 ** (c / 100.0), lambda v: rint(100 * math.log10(v)) if v > 0 else BAD
    return lambda c: -10.0 ** (-c / 100.0), lambda v: rint(-100 * math.log10(-v)) if v < 0 else BAD


def rint(x):
    return round(x) if abs(x - round(x)) < 1e-3 and abs(x) < 2 * 10 ** 5 else BAD


def frac(v):
    return round(v * S) if abs(v) < 15 else BAD


def graphs(ctx, n):
    from pyx import text, graph
    from pyx.graph import axis, data
    from pyx.graph.axis import parter
    StubEngine, StubBox = stubtext.make()
    r = ctx.rng
    traces = []
    saved = text.defaulttextengine
    text.defaulttextengine = StubEngine(0.02)
    try:
        for _ in range(n):
            oned = r.random() < 0.15
            flipped = r.random() < 0.3
            names = ["x"] if oned else ["x", "y"]
            for m in ["x2", "x3", "x5"] if oned else ["x2", "y2", "y3", "x4"]:
                if r.random() < 0.3:
                    names.append(m)
            if "x5" in names and "x3" not in names:
                names.remove("x5")
            if "x4" in names and "x2" not in names:
                names.remove("x4")
            if not oned and r.random() < 0.1:
                names.remove("x")           # only x2: x becomes linked to it
                if "x2" not in names:
                    names.append("x2")
            axes, kws, val, cod, info, xat = {}, {}, {}, {}, [], {}
            for m in names:
                kind = r.choice(["lin", "lin", "lin", "log", "neg"])
                if m == "y" and oned:
                    continue
                base = []
                if base and r.random() < 0.3:
                    b = base[0]
                    kws.setdefault("linked", {})[m] = b
                    val[m], cod[m] = val[b], cod[b]
                    info.append(dict(n=m, of=b, cfg=dict(min=[], max=[], rev=False, fall=[])))
                    continue
                u = Fraction(10) ** r.randint(-6, 2)
                val[m], cod[m] = coder(kind, u)
                if kind == "lin":
                    lo = r.randint(-9000, 3000)
                    hi = lo + r.randint(1001, 8999)
                else:
                    lo = r.randint(-600, 300)
                    hi = lo + r.randint(180, 880)
                cfg = dict(min=[], max=[], rev=r.random() < 0.3, fall=[])
                ext = r.random() < 0.7
                if r.random() < 0.35:
                    cfg["min"] = [lo]
                if r.random() < 0.35:
                    cfg["max"] = [hi]
                if cfg["min"] and cfg["max"] and kind == "lin" and r.random() < 0.2:
                    cfg["min"], cfg["max"] = cfg["max"], cfg["min"]
                kw = dict(reverse=cfg["rev"])
                if cfg["min"]:
                    kw["min"] = val[m](cfg["min"][0])
                if cfg["max"]:
                    kw["max"] = val[m](cfg["max"][0])
                if r.random() < 0.1 and not (cfg["min"] and cfg["max"]):
                    cfg["fall"] = [1000]
                    if kind == "lin":
                        kw["fallbackrange"] = val[m](2000)
                    else:
                        cfg["fall"] = [lo, hi]
                        kw["fallbackrange"] = (val[m](lo), val[m](hi))
                if kind == "lin":
                    x = r.random()
                    if x < 0.2:
                        kw["parter"] = None
                        ext = False
                    elif not ext:
                        kw["parter"] = parter.autolinear(extendtick=None)
                    if r.random() < 0.2:
                        kw["divisor"] = r.choice([2, 3.0])
                else:
                    if not ext:
                        kw["parter"] = parter.autologarithmic(extendtick=None)
                axes[m] = (axis.lin if kind == "lin" else axis.log)(**kw)
                info.append(dict(n=m, of="", cfg=cfg, ext=ext, lo=lo, hi=hi, kind=kind))
            linked = kws.get("linked", {})
            allax = {i["n"]: i for i in info}
            # the graph adds the opposite axis as a linked one
            for m in ["x"] if oned else ["x", "y"]:
                o = m + "2"
                for new, old in ((o, m), (m, o)):
                    if new not in allax and old in allax:
                        info.append(dict(n=new, of=old, cfg=dict(min=[], max=[], rev=False, fall=[])))
                        val[new], cod[new] = val[old], cod[old]
            for i in info:
                allax[i["n"]] = i

            def root(m):
                while allax[m]["of"]:
                    m = allax[m]["of"]
                return m
            W, H = r.choice([(10, 5), (4, 8)])
            ev = []
            broken = []

            def build():
                kw = dict(axes)
                g = None
                # linked axes need the anchored axis of another graph or are set up afterwards: use the graph's own mechanism
                if oned:
                    g = graph.graphx(length=H, size=1, direction=r.choice(["vertical", "horizontal"]), xpos=1, ypos=2, **kw)
                else:
                    g = graph.graphxy(width=W, height=H, xpos=1, ypos=2, flipped=flipped, **kw)
                return g
            if linked:
                # link to an axis of a first graph
                pass
            made = set()

            def note_made(g):
                for i in info:
                    m = i["n"]
                    if m in g.axes and g.axes[m].canvas is not None and m not in made:
                        made.add(m)
                        d = g.axes[m].data
                        rt = allax[root(m)]
                        q = axes[root(m)].divisor or 1
                        ts = [cod[m](float(t)) for t in (d.ticks[0], d.ticks[-1])] if getattr(d, "ticks", None) else []
                        ev.append(dict(k="made", n=m, ok=True, rng=[cod[m](d.min), cod[m](d.max)], ticks=ts, ext=rt["ext"]))

            g = guard(build)
            if not g.ok:
                ctx.violation("graph-refused", "%r" % (g.exc,), repr(kws))
                continue
            g = g.value
            free = [i for i in info if not i["of"]]

            def plot(full):
                cols, pts = {}, []
                k = r.randint(2, 4)
                use = [i for i in free if i["n"] != "x" and i["n"] != "y"]
                for d in "x" if oned else "xy":
                    ch = [i for i in info if i["n"][0] == d and root(i["n"]) == i["n"]]
                    i = r.choice(ch)
                    xs = [r.randint(i["lo"], i["hi"]) for _ in range(k)]
                    if not ev or len(ev) < 2:
                        xs[:2] = [i["lo"], i["hi"]][::r.choice([1, -1])]
                    if r.random() < 0.05 and i["kind"] == "lin":
                        xs = [xs[0]] * k
                    cols[i["n"]] = xs
                pl = graph.data.values(**{m: [val[m](x) for x in xs] for m, xs in cols.items()}, **(dict(y=[0.5] * k) if oned else {}))
                g.plot(pl)
                for m, xs in cols.items():
                    ev.append(dict(k="adjust", n=m, xs=xs, late=bool(g.didranges)))

            def conv(m, x, v, via):
                note_made(g)
                ev.append(dict(k="conv", n=m, x=x, v=frac(v), ok=True, via=via))

            def ask():
                from pyx import unit
                i = r.choice([i for i in info if i["n"] in g.axes])
                m = i["n"]
                rt = allax[root(m)]
                span = rt["hi"] - rt["lo"]
                x = r.randint(rt["lo"] - span // 5, rt["hi"] + span // 5)
                a = g.axes[m]
                via = r.choice(["convert", "tickpoint_pt", "tickpoint", "gridpath", "basepath", "pos_pt", "pos", "vpos", "vtick"])
                vertical = (m[0] == "y") != g.flipped
                W_pt, H_pt, X_pt, Y_pt = g.width_pt, g.height_pt, g.xpos_pt, g.ypos_pt
                unv = lambda p: (p[1] - Y_pt) / H_pt if vertical else (p[0] - X_pt) / W_pt
                try:
                    if via == "convert":
                        conv(m, x, a.convert(val[m](x)), via)
                    elif via == "tickpoint_pt":
                        conv(m, x, unv(a.tickpoint_pt(val[m](x))), via)
                    elif via == "vtick":
                        v = a.convert(val[m](x))
                        top = lambda p: [unit.topt(c) for c in p]
                        conv(m, x, unv(a.vtickpoint_pt(v)), via)
                        conv(m, x, unv(top(a.vtickpoint(v))), via)
                        conv(m, x, unv(a.vgridpath(v).atend_pt()), via)
                        conv(m, x, unv(a.vbasepath(v, 0.5).atbegin_pt()), via)
                        if m[0] == m:
                            conv(m, x, unv(getattr(g, m + "vtickpoint_pt")(v)), via)
                            conv(m, x, unv(top(getattr(g, m + "vtickpoint")(v))), via)
                            conv(m, x, unv(getattr(g, m + "vgridpath")(v).atbegin_pt()), via)
                            conv(m, x, unv(getattr(g, m + "vbasepath")(0.5, v).atend_pt()), via)
                    elif via == "tickpoint":
                        conv(m, x, unv([unit.topt(c) for c in a.tickpoint(val[m](x))]), via)
                        if m[0] == m:
                            fn = getattr(g, m + "tickpoint")
                            conv(m, x, unv([unit.topt(c) for c in fn(val[m](x))]), via)
                    elif via == "gridpath":
                        p = (getattr(g, m + "gridpath") if m == m[0] and r.random() < 0.5 else a.gridpath)(val[m](x))
                        (x1, y1), (x2, y2) = p.atbegin_pt(), p.atend_pt()
                        conv(m, x, unv((x1, y1)), via)
                        conv(m, x, unv((x2, y2)), via)
                    elif via == "basepath":
                        y = r.randint(rt["lo"], rt["hi"])
                        bp = getattr(g, m + "basepath") if m == m[0] and r.random() < 0.5 else a.basepath
                        q = r.randint(0, 2)
                        p = bp(val[m](x), val[m](y)) if q == 0 else bp(x1=val[m](x)) if q == 1 else bp(x2=val[m](y))
                        if q != 2:
                            conv(m, x, unv(p.atbegin_pt()), via)
                        if q != 1:
                            conv(m, y, unv(p.atend_pt()), via)
                    elif not oned:
                        mx, my = r.choice([j["n"] for j in info if j["n"][0] == "x"]), r.choice([j["n"] for j in info if j["n"][0] == "y"])
                        rx, ry = allax[root(mx)], allax[root(my)]
                        x, y = r.randint(rx["lo"], rx["hi"]), r.randint(ry["lo"], ry["hi"])
                        kw = {}
                        if mx != "x" or r.random() < 0.3:
                            kw["xaxis"] = g.axes[mx]
                        if my != "y" or r.random() < 0.3:
                            kw["yaxis"] = g.axes[my]
                        if via == "pos_pt":
                            p = g.pos_pt(val[mx](x), val[my](y), **kw)
                        elif via == "pos":
                            p = [unit.topt(c) for c in g.pos(val[mx](x), val[my](y), **kw)]
                        else:
                            v = [g.axes[mx].convert(val[mx](x)), g.axes[my].convert(val[my](y))]
                            p = g.vpos_pt(*v) if r.random() < 0.5 else [unit.topt(c) for c in g.vpos(*v)]
                        v = ((p[0] - X_pt) / W_pt, (p[1] - Y_pt) / H_pt)
                        if g.flipped:
                            v = v[::-1]
                        conv(mx, x, v[0], via)
                        conv(my, y, v[1], via)
                    else:
                        if via == "pos_pt":
                            p = g.pos_pt(val[m](x), xaxis=a)
                        elif via == "pos":
                            p = [unit.topt(c) for c in g.pos(val[m](x), xaxis=a)]
                        else:
                            p = [unit.topt(c) for c in g.vpos(a.convert(val[m](x)))]
                        conv(m, x, (p[1] - Y_pt) / H_pt if g.flipped else (p[0] - X_pt) / W_pt, via)
                except Exception as e:
                    note_made(g)
                    ev.append(dict(k="conv", n=m, x=x, v=0, ok=False, via=via, exc="%s: %s" % (type(e).__name__, e)))
            failed = []

            def f():
                for _ in range(r.randint(1, 3)):
                    plot(True)
                if r.random() < 0.3:
                    g.doaxes() if r.random() < 0.5 else g.dolayout()
                for _ in range(4):
                    ask()
                if r.random() < 0.3:
                    plot(False)
                    for _ in range(2):
                        ask()
            o = guard(f)
            if not o.ok:
                # axes without data or without extent cannot be laid out
                note_made(g)
                why = str(o.exc)
                m = why.rsplit(" ", 1)[-1]
                if "RuntimeError" in why and ("incomplete axis range" in why or "zero axis range" in why) and m in val:
                    ev.append(dict(k="made", n=m, ok=False, rng=[0, 0], ticks=[], ext=False))
                elif "NoValidPartition" in why or "no axis partitioning" in why:
                    continue
                else:
                    ctx.violation("graph:failed", "%s in a graph with %r: %r" % (o.exc, axes.keys(), ev[-3:]), ev)
                    continue
            bad = [e for e in ev if e["k"] == "conv" and not e["ok"] and ("incomplete axis range" in e["exc"] or "zero axis range" in e["exc"])]
            if bad:
                e = bad[0]
                if "NoValidPartition" in e["exc"]:
                    continue
                i = ev.index(e)
                m = e["exc"].rsplit(" ", 1)[-1]
                ev = ev[:i] + [dict(k="made", n=m, ok=False, rng=[0, 0], ticks=[], ext=False)] if m in val else ev[:i]
            if any(e["k"] == "conv" and not e["ok"] and "partition" in e["exc"] for e in ev):
                continue
            traces.append(dict(axes=[dict(n=i["n"], of=i["of"], cfg=i["cfg"]) for i in info], ev=ev, oned=oned, flipped=flipped,
                               kinds={i["n"]: i.get("kind", "") for i in info}))
    finally:
        text.defaulttextengine = saved
    ctx.sample({"graph": traces[0]}, 3)
    ctx.note(graph_events=sum(len(t["ev"]) for t in traces))
    ctx.validate("AxisTrace", traces, key=lambda t, l, why: "graph:%s:%s%s" % (why, t["ev"][l - 1].get("via", t["ev"][l - 1]["k"]), ":1d" if t["oned"] else ":flipped" if t["flipped"] else ""),
                 describe=lambda t, l, why: "%s: axes %r: events %r" % (why, t["axes"], t["ev"][max(0, l - 3):l]))


def run(ctx):
    histories(ctx)
    graphs(ctx, ctx.n(700, 7000))
