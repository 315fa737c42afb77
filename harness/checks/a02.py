"""A02: changing attributes (spec/Select.tla, SelectMC.tla, SelectTrace.tla)."""
import io, json
import psstate
from scenes import q, BAD
from vp import guard


def value(v):
    from pyx import style, color
    x = v["num"] / v["den"]
    return {"lw": lambda: style.linewidth(x * 0.25 * style._defaultlinewidth), "cap": lambda: style.linecap(int(x)),
            "join": lambda: style.linejoin(int(x)), "gray": lambda: color.gray(x / 100)}[v["k"]]()


def entry(a):
    from pyx import attr, color
    t = a["t"]
    if t == "fix":
        return value(a["v"])
    if t == "cyc":
        return attr.changelist([value(v) for v in a["vs"]])
    if t == "list":
        return attr.changelist([value(v) for v in a["vs"]], cyclic=0)
    if t == "grad":
        return color.lineargradient_gray(color.gray(a["lo"] / 100), color.gray(a["hi"] / 100))
    return attr.multichangeattr({i + 1: entry(b) if b["t"] != "fix" else attr.changelist([entry(b)]) for i, b in enumerate(a["as"])})


def plain(x):
    from pyx import style, color, unit
    if isinstance(x, style.linewidth):
        return ("lw", q(unit.topt(x.width) / unit.topt(style._defaultlinewidth), 48, 1e-5))
    if isinstance(x, style.linecap):
        return ("cap", 12 * x.value)
    if isinstance(x, style.linejoin):
        return ("join", 12 * x.value)
    if isinstance(x, color.gray):
        return ("gray", q(x.g, 1200, 1e-6))
    return (repr(x), BAD)


def observe(plots, entries, order):
    """one graph with the given plots, style lists used; what each plot was stroked with"""
    from pyx import graph
    from pyx.graph import axis
    lin = lambda n: axis.linear(min=0, max=n, painter=None)
    g = graph.graphxy(width=4, height=4, x=lin(10), y=lin(len(plots) + 1), x2=None, y2=None)
    styles = [[graph.style.line([entry(a) for a in e[1:]])] for e in entries]
    data = [graph.data.points([(1, j + 1), (9, j + 1)], x=1, y=2, title=None) for j in range(len(plots))]
    i = 0
    while i < len(plots):
        k = i + 1
        if order:
            # several data sets in one plot call
            while k < len(plots) and plots[k] == plots[i]:
                k += 1
        g.plot(data[i] if k == i + 1 else data[i:k], styles[plots[i] - 1])
        i = k
    f = io.BytesIO()
    g.writeEPSfile(f)
    res = [[] for _ in plots]
    for op, p, gs in psstate.eps_paints(f.getvalue()):
        if op == "stroke":
            y = p[0][1][0][1] / (4 * 72 / 2.54) * (len(plots) + 1)
            j = round(y) - 1
            res[j].append(dict(lw=q(gs.lw / (0.02 * 72 / 2.54), 4, 1e-3), cap=gs.cap, join=gs.join,
                               gray=q(gs.color[1][0], 1200, 1e-5) if gs.color[0] == "gray" else BAD))
    return res


def run(ctx):
    from pyx import attr
    r = ctx.model_check("SelectMC", constants=dict(MaxLen=ctx.n(3, 4), MaxTotal=4), invariants=["Spread", "Independent", "Emit"],
                        label="all attribute lists over 7 entries")
    lib = [dict(t="fix", v=dict(k="lw", num=3, den=1)),
           dict(t="cyc", vs=[dict(k="cap", num=i, den=1) for i in (0, 1, 2)]),
           dict(t="list", vs=[dict(k="join", num=i, den=1) for i in (2, 1, 0)]),
           dict(t="grad", lo=0, hi=100), dict(t="grad", lo=80, hi=20),
           dict(t="cyc", vs=[dict(k="lw", num=5, den=1)]),
           dict(t="multi", **{"as": [dict(t="fix", v=dict(k="lw", num=1, den=1)), dict(t="grad", lo=0, hi=60),
                                     dict(t="cyc", vs=[dict(k="cap", num=2, den=1), dict(k="cap", num=0, den=1)]),
                                     dict(t="list", vs=[dict(k="lw", num=7, den=1), dict(k="lw", num=9, den=1)])]})]
    real = [entry(a) for a in lib]      # shared by all behaviours: earlier uses must not matter
    cases = [json.loads(p[1:]) for p in r.prints]
    for c in cases:
        attrs = [real[i - 1] for i in c["as"]]
        order = list(range(c["n"]))
        ctx.rng.shuffle(order)
        ctx.traces += 1
        for i in order:
            before = list(attrs)
            o = guard(attr.selectattrs, attrs, i, c["n"])
            exp = c["exp"][i]
            exp = [(v["k"], v["num"] * 12 // v["den"]) for v in exp[0]] if exp else None
            got = [plain(x) for x in o.value] if o.ok and o.value is not None else o.value if o.ok else str(o.exc)
            if got != exp or attrs != before:
                ctx.violation("select", "entries %r, plot %d of %d: expected %r, got %r" % (c["as"], i + 1, c["n"], exp, got), c)
                break
            if len(attrs) == 1:
                o = guard(attr.selectattr, attrs[0], i, c["n"])
                if not o.ok or (exp is None) != (o.value is None) or (exp and plain(o.value) != exp[0]):
                    ctx.violation("selectattr", "entry %r, plot %d of %d: expected %r, got %r" % (c["as"], i + 1, c["n"], exp, o), c)
                    break
    ctx.sample({"case": cases[len(cases) // 2]})

    # whole graphs: the attributes every plot is written with
    rng = ctx.rng
    default = dict(t="cyc", vs=[dict(k="cap", num=i, den=1) for i in (0, 0, 1, 1)])

    def rentry():
        t = rng.choice(["fix", "cyc", "list", "grad", "grad"])
        k = rng.choice(["lw", "cap", "join"])
        v = lambda: dict(k=k, num=rng.randint(1, 9) if k == "lw" else rng.randint(0, 2), den=1)
        if t == "fix":
            return dict(t=t, v=v())
        if t == "grad":
            return dict(t=t, k="gray", lo=rng.choice([0, 20, 50]), hi=rng.choice([40, 90, 100]))
        return dict(t=t, vs=[v() for _ in range(rng.randint(1, 4))])
    traces = []
    for _ in range(ctx.n(120, 1500)):
        styles = [[default] + [rentry() for _ in range(rng.randint(0, 4))] for _ in range(rng.randint(1, 3))]
        while True:
            plots = [rng.randint(1, len(styles)) for _ in range(rng.randint(1, 6))]
            if max(plots.count(x) for x in plots) <= 5:
                break
        o = guard(observe, plots, styles, rng.random() < 0.5)
        if not o.ok:
            ctx.violation("plot", str(o.exc), [plots, styles])
            continue
        traces.append(dict(plots=plots, styles=styles, ev=[dict(j=j + 1, obs=x) for j, x in enumerate(o.value)]))
    ctx.sample(traces[0])
    ctx.validate("SelectTrace", traces, key=lambda t, l, why: why,
                 describe=lambda t, l, why: "%s of plot %d: written %r; plots %r styles %r" % (why, l, t["ev"][l - 1], t["plots"], t["styles"]))
