"""R10: objects shared among graphs (spec/Sharing.tla): all short sharing histories and random ones; every drawing against that of the same
graph made of new objects in a process in which nothing else happened."""
import hashlib, io, json, os, re
from vp import guard
import stubtext

FORMATS = ("eps", "svg", "pdf")


# ---------------------------------------------------------------- what the values mean
def makers():
    from pyx import attr, color, deco, graph, path, style, unit
    from pyx.graph import axis
    from pyx.graph.axis import painter, parter, texter, tick, rater
    gs = graph.style
    gd = graph.data
    pt = lambda v: v * unit.t_pt
    M = {
        # lists of attributes
        "attrs:red": lambda: [color.rgb.red],
        "attrs:dashed": lambda: [style.linestyle.dashed, style.linewidth.thick],
        "attrs:change": lambda: [attr.changelist([color.rgb.red, color.rgb.green, color.rgb.blue]), attr.changelist([style.linestyle.solid, style.linestyle.dotted])],
        "attrs:gradient": lambda: [color.gradient.Rainbow, style.linewidth.Thin],
        "attrs:clear": lambda: [deco.stroked.clear, deco.filled([color.cmyk.Green])],
        "attrs:filled": lambda: [deco.filled([color.cmyk.Yellow]), deco.stroked([color.gray(0.5)])],
        "attrs:none": lambda: [],
        # the inside of axes
        "parter:linear": lambda: parter.linear(["2", "1"], ["4"], extendtick=1),
        "parter:auto": lambda: parter.autolinear(extendtick=None),
        "parter:log": lambda: parter.autologarithmic(),
        "texter:decimal": lambda: texter.decimal(suffix="m", equalprecision=1),
        "texter:exp": lambda: texter.default(),
        "texter:rational": lambda: texter.rational(suffix="/x"),
        "painter:grid": lambda a: painter.regular(gridattrs=a, titledirection=None, outerticklength=painter.ticklength.Short),
        "painter:ticks": lambda a: painter.regular(tickattrs=a, basepathattrs=[color.gray(0.2)], innerticklength=None, outerticklength=painter.ticklength.normal),
        "painter:linked": lambda a: painter.linked(tickattrs=a),
        "painter:bar": lambda a: painter.bar(basepathattrs=a, innerticklength=pt(3)),
        "ticks:manual": lambda: [tick.tick((5, 2), label="p"), tick.tick(7, ticklevel=1), tick.tick(3, labellevel=0, ticklevel=None)],
        # axes
        "axis:auto": lambda: axis.lin(),
        "axis:title": lambda: axis.lin(title="a title"),
        "axis:fixed": lambda: axis.lin(min=0, max=20),
        "axis:reverse": lambda: axis.lin(min=1, max=None, reverse=1),
        "axis:divisor": lambda: axis.lin(divisor=2.5, title="div"),
        "axis:log": lambda: axis.log(),
        "axis:logmin": lambda: axis.log(min=1),
        "axis:all": lambda pa, te, pn: axis.lin(parter=pa, texter=te, painter=pn),
        "axis:logall": lambda pa, te, pn: axis.log(parter=pa, texter=te, painter=pn, linkpainter=pn),
        "axis:manual": lambda ti, te: axis.lin(manualticks=ti, texter=te),
        "axis:onlymanual": lambda ti, pn: axis.lin(parter=None, manualticks=ti, painter=pn),
        "axis:ticksdivisor": lambda ti, te: axis.lin(min=0, max=30, parter=None, divisor=3, manualticks=ti, texter=te),
        "axis:ticksonly": lambda ti, te: axis.lin(min=0, max=12, parter=None, manualticks=ti, texter=te),
        "axis:bar": lambda: axis.bar(),
        "axis:bardist": lambda pn: axis.bar(dist=0.3, firstdist=0.1, painter=pn),
        "axis:barsub": lambda ax: axis.bar(defaultsubaxis=ax, dist=0.2),
        "axis:split": lambda a1, a2: axis.split(subaxes={0: a1, 1: a2}),
        "subaxis:auto": lambda: axis.autosizedlinear(min=0),
        "subaxis:sized": lambda: axis.sizedlinear(size=2, min=0, max=4),
        # data
        "data:low": lambda: gd.points([(1, 2), (2, 3), (4, 3.5), (5, 1)], x=1, y=2, title="low"),
        "data:high": lambda: gd.points([(10, 20), (30, 80), (70, 40)], x=1, y=2, title="high"),
        "data:values": lambda: gd.values(x=[1, 3, 9, 11], y=[2, 2, 8, 5], title=None),
        "data:errors": lambda: gd.points([(2, 3, 1, 0.5), (6, 9, 2, 1), (9, 4, 1, 3)], x=1, y=2, dx=3, dy=4, title="errors"),
        "data:even": lambda: gd.points([(2, 3), (4, 5), (6, 1.5), (8, 4)], x=1, y=2, title="even"),
        "data:func": lambda: gd.function("y(x)=2+x/2", points=7, title="func"),
        "data:funcrange": lambda: gd.function("y(x)=x*x/4+1", min=2, max=6, points=9),
        "data:param": lambda: gd.paramfunction("t", 1, 5, "x, y = 2*t+1, t*t", points=6),
        "data:sizes": lambda: gd.points([(2, 3, 10, 45), (5, 5, 20, 90), (8, 2, 15, -30)], x=1, y=2, size=3, angle=4, title="sizes"),
        "data:text": lambda: gd.points([(2, 3, "eins"), (5, 5, "zwei"), (8, 2, "drei")], x=1, y=2, text=3, title="text"),
        "data:color": lambda: gd.points([(i, j, i * j % 7) for i in (1, 2, 3) for j in (2, 3, 4)], x=1, y=2, color=3, title="color"),
        "data:data": lambda d: gd.data(d, x=2, y=1, title="data of data"),
        "data:join": lambda d1, d2: gd.join([d1, d2], title="joined"),
        "data:bars": lambda: gd.points([("a", 3), ("b", 7), ("c", 5)], xname=1, y=2, title="bars"),
        "data:morebars": lambda: gd.points([("b", 13), ("d", 2)], xname=1, y=2, title="more bars"),
        "data:split": lambda: gd.points([((0, 1), 3), ((0, 3), 7), ((1, 2), 5), ((1, 3.5), 9)], x=1, y=2, title="split"),
        "data:space": lambda: gd.points([(i, j, 5 + i * j) for i in (1, 2, 3) for j in (1, 2, 3)], x=1, y=2, z=3, title="space"),
        "data:curve": lambda: gd.points([(1, 2, 3), (4, 4, 10), (6, 1, 20)], x=1, y=2, z=3, title="curve"),
        # styles
        "style:line": lambda a: gs.line(lineattrs=a),
        "style:symbol": lambda a: gs.symbol(symbolattrs=a),
        "style:changesymbol": lambda a: gs.symbol(symbol=gs.symbol.changecircletwice, size=attr.changelist([pt(4), pt(7)]), symbolattrs=a),
        "style:impulses": lambda a: gs.impulses(lineattrs=a, fromvalue=1),
        "style:errorbar": lambda a: gs.errorbar(errorbarattrs=a),
        "style:text": lambda: gs.text("text"),
        "style:arrow": lambda a: gs.arrow(lineattrs=a),
        "style:histogram": lambda a: gs.histogram(lineattrs=a, steps=1),
        "style:filledhistogram": lambda a: gs.histogram(lineattrs=a, fillable=1, fromvalue=1),
        "style:rect": lambda: gs.density(gradient=color.gradient.RedGreen, keygraph=None),
        "style:density": lambda ax: gs.density(coloraxis=ax),
        "style:bar": lambda a: gs.bar(barattrs=a),
        "style:barpos": lambda: gs.barpos(fromvalue=0),
        "style:grid": lambda a: gs.grid(gridattrs=a),
        "style:surface": lambda ax: gs.surface(coloraxis=ax, gridcolor=None),
        # lists of styles (the list itself is given to plot)
        "styles": lambda *s: list(s),
        "key:tr": lambda: graph.key.key(pos="tr"),
        "key:bl": lambda a: graph.key.key(pos="bl", dist=pt(2), keyattrs=a, columns=2),
        "key:mid": lambda: graph.key.key(pos="mc", hinside=0, symbolwidth=pt(9)),
    }
    return M


def makegraph(v, ins):
    from pyx import graph, unit
    pt = lambda x: x * unit.t_pt
    if v == "xy":
        return graph.graphxy(width=pt(200), height=pt(120), x=ins[0], y=ins[1])
    if v == "xykey":
        return graph.graphxy(width=pt(200), height=pt(120), x=ins[0], y=ins[1], key=ins[2])
    if v == "xykeyback":
        return graph.graphxy(width=pt(150), ratio=1, x=ins[0], y=ins[1], key=ins[2], backgroundattrs=ins[3])
    if v == "xyx2y2":   # the axes x2 and y2 without data
        return graph.graphxy(xpos=pt(20), ypos=pt(30), width=pt(200), height=pt(120), x=ins[0], y=ins[1], x2=ins[2], y2=ins[3])
    if v == "flipped":
        return graph.graphxy(width=pt(100), height=pt(220), flipped=True, x=ins[0], y=ins[1])
    if v == "xyz":
        return graph.graphxyz(size=pt(40), x=ins[0], y=ins[1], z=ins[2])
    raise ValueError(v)


def docall(g, c, ins):
    if c == "plot":
        g.plot(ins[0], ins[1] if len(ins) > 1 else None)
    elif c == "plotlist":
        g.plot(list(ins[:-1]), ins[-1])
    else:
        dict(ranges=g.doranges, layout=g.dolayout, axes=g.doaxes, styles=g.dostyles, doplot=g.doplot, finish=g.finish)[c]()


def token(g, fmt):
    f = io.BytesIO()
    getattr(g, "write%sfile" % fmt.upper())(f, **(dict(write_compress=False) if fmt == "pdf" else {}))
    t = f.getvalue()
    t = re.sub(rb"%%CreationDate:.*|/CreationDate \(.*?\)|/ModDate \(.*?\)", b"", t)
    # names made of addresses: by their first use in the content; the order of the resources does not matter
    names = {}
    for m in re.finditer(rb"(?<=shading-)\d{9,}(?= sh\b)", t):
        names.setdefault(m.group(), len(names))
    t = re.sub(rb"(?<=[A-Za-z_-])\d{9,}", lambda m: b"#%d" % names.setdefault(m.group(), len(names)), t)
    t = re.sub(rb"(?:/shading-#\d+ \d+ 0 R\n)+", lambda m: b"\n".join(sorted(m.group().split(b"\n"))), t)
    return hashlib.sha1(t).hexdigest()[:16]


# ---------------------------------------------------------------- recipes
def isid(v):
    return v.startswith("style:")


def recipe(objs, g):
    order = []

    def note(o):
        if objs[o]["id"] and o not in order:
            order.append(o)
        for i in objs[o]["in"]:
            note(i)

    # the numbers are the places in the sequence of all occurrences
    seq = []

    def flat(o):
        if objs[o]["id"]:
            seq.append(o)
        for i in objs[o]["in"]:
            flat(i)
    for o in g["in"]:
        flat(o)
    for c in g["calls"]:
        for o in c["in"]:
            flat(o)

    def val(o):
        return dict(v=objs[o]["v"], n=seq.index(o) + 1 if objs[o]["id"] else 0, **{"in": [val(i) for i in objs[o]["in"]]})
    return dict(v=g["v"], calls=[dict(c=c["c"], **{"in": [val(o) for o in c["in"]]}) for c in g["calls"]], **{"in": [val(o) for o in g["in"]]})


def fresh(r):
    """the drawings of a graph of a recipe, each of an own graph"""
    res = []
    for fmt in FORMATS:
        def draw():
            M = makers()
            made = {}

            def build(x):
                if x["n"] and x["n"] in made:
                    return made[x["n"]]
                y = M[x["v"]](*[build(i) for i in x["in"]])
                if x["n"]:
                    made[x["n"]] = y
                return y
            g = makegraph(r["v"], [build(x) for x in r["in"]])
            for c in r["calls"]:
                docall(g, c["c"], [build(x) for x in c["in"]])
            return token(g, fmt)
        o = guard(draw)
        res.append(o.value if o.ok else "failed: " + o.exc)
    return res


def references(recipes, workers=6):
    """each recipe in a process of its own"""
    todo = {}
    for r in recipes:
        todo.setdefault(json.dumps(r, sort_keys=True), r)
    items = list(todo.items())
    res = {}
    running = {}
    while items or running:
        while items and len(running) < workers:
            k, r = items.pop()
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(rd)
                    with os.fdopen(wr, "w") as f:
                        json.dump(fresh(r), f)
                finally:
                    os._exit(0)
            os.close(wr)
            running[pid] = (k, rd)
        pid, (k, rd) = next(iter(running.items()))
        with os.fdopen(rd) as f:
            text = f.read()
        os.waitpid(pid, 0)
        del running[pid]
        res[k] = json.loads(text) if text else ["failed: no answer"] * 3
    return res


# ---------------------------------------------------------------- histories in one process
def content(x):
    return [id(y) for y in x] if isinstance(x, list) else []


def live(ops, objs):
    """the events of a history"""
    M = makers()
    made, ev, lists = [], [], []
    for o in objs:
        r = guard(lambda: M[o["v"]](*[made[i - 1] for i in o["in"]]))
        made.append(r.value if r.ok else None)
        ev.append(dict(k="object", v=o["v"], id=o["id"], failed=r.exc or "", **{"in": o["in"]}))
    before = [(content(m), [repr(x) for x in m] if isinstance(m, list) else []) for m in made]
    graphs = []
    for n, op in enumerate(ops):
        ins = [made[i - 1] for i in op["in"]]
        if op["k"] == "graph":
            r = guard(lambda: makegraph(op["c"], ins))
            graphs.append(r.value if r.ok else None)
            ev.append(dict(k="graph", v=op["c"], failed=r.exc or "", **{"in": op["in"]}))
        elif op["k"] == "call":
            r = guard(lambda: docall(graphs[op["g"] - 1], op["c"], ins))
            ev.append(dict(k="call", g=op["g"], c=op["c"], failed=r.exc or "", **{"in": op["in"]}))
        else:
            f = op.get("f", n % 3)
            r = guard(lambda: token(graphs[op["g"] - 1], FORMATS[f]))
            ev.append(dict(k="write", g=op["g"], f=f + 1, d=r.value if r.ok else "", failed=r.exc or ""))
    for o, m, (b, rb) in zip(objs, made, before):
        if isinstance(m, list):
            ev.append(dict(k="list", v=o["v"], before=["%d %s" % x for x in zip(b, rb)], after=["%d %s" % x for x in zip(content(m), [repr(x) for x in m])]))
    base = {}
    for e in ev:   # identities as small numbers
        if e["k"] == "list":
            for w in ("before", "after"):
                e[w] = [str(base.setdefault(x, len(base))) for x in e[w]]
    return ev


def recipes_of(ops, objs):
    """the recipes of all drawings, in the order of the writings"""
    graphs, res, O = [], [], {i + 1: o for i, o in enumerate(objs)}
    for op in ops:
        if op["k"] == "graph":
            graphs.append(dict(v=op["c"], calls=[], written=False, **{"in": op["in"]}))
        elif op["k"] == "call":
            g = graphs[op["g"] - 1]
            refuses = op["c"] in ("plot", "plotlist") and (g["written"] or any(c["c"] in ("styles", "doplot", "finish") for c in g["calls"]))
            if not g["written"] and not refuses:
                g["calls"].append(dict(c=op["c"], **{"in": op["in"]}))
        else:
            g = graphs[op["g"] - 1]
            g["written"] = True
            res.append(recipe(O, g))
    return res


# ---------------------------------------------------------------- random histories
def scenario(rng):
    objs = []

    def new(v, *ins):
        objs.append(dict(v=v, id=isid(v), **{"in": list(ins)}))
        return len(objs)

    def pick(kind, make, p=0.6):
        """an object used before or a new one (maybe of the same value)"""
        old = pools.setdefault(kind, [])
        if old and rng.random() < p:
            return rng.choice(old)
        o = make()
        old.append(o)
        return o
    pools = {}
    A = lambda *vs: pick("attrs " + " ".join(vs), lambda: new(rng.choice(vs)))
    lines = ("attrs:red", "attrs:dashed", "attrs:change", "attrs:gradient", "attrs:none")
    fills = ("attrs:clear", "attrs:filled", "attrs:change")
    parter = lambda: pick("parter", lambda: new(rng.choice(["parter:linear", "parter:auto"])))
    texter = lambda: pick("texter", lambda: new(rng.choice(["texter:decimal", "texter:exp", "texter:rational"])))
    painter = lambda: pick("painter", lambda: new(rng.choice(["painter:grid", "painter:ticks", "painter:linked"]), A(*lines)))
    ticks = lambda: pick("ticks", lambda: new("ticks:manual"))

    def lin():
        v = rng.choice(["auto", "title", "fixed", "reverse", "divisor", "log", "logmin", "all", "logall", "manual", "onlymanual", "ticksdivisor", "ticksonly"])
        if v == "all":
            return new("axis:all", parter(), texter(), painter())
        if v == "logall":
            return new("axis:logall", pick("logparter", lambda: new("parter:log")), texter(), painter())
        if v in ("manual", "ticksdivisor", "ticksonly"):
            return new("axis:" + v, ticks(), texter())
        if v == "onlymanual":
            return new("axis:onlymanual", ticks(), painter())
        return new("axis:" + v)
    num = lambda: pick("axis", lin)
    plain = lambda: pick("plain axis", lambda: new("axis:" + rng.choice(["auto", "title", "fixed", "divisor"])) if rng.random() < 0.6 else new("axis:all", parter(), texter(), painter()))
    fixed = lambda: pick("fixed axis", lambda: new("axis:fixed"))
    bars = lambda: pick("baraxis", lambda: new("axis:bar") if rng.random() < 0.4 else new("axis:bardist", pick("barpainter", lambda: new("painter:bar", A("attrs:red", "attrs:dashed")))))
    split = lambda: pick("splitaxis", lambda: new("axis:split", *[pick("subaxis", lambda: new(rng.choice(["subaxis:auto", "subaxis:sized"]))) for i in (0, 1)]))

    def flatdata():
        v = rng.choice(["low", "high", "values", "errors", "func", "funcrange", "param", "data", "join"])
        if v == "data":
            return new("data:data", pick("points", lambda: new(rng.choice(["data:low", "data:high"]))))
        if v == "join":
            return new("data:join", *[pick("points", lambda: new(rng.choice(["data:low", "data:high"]))) for i in (0, 1)])
        return new("data:" + v)

    def plotargs(domain, log, key):
        """data and styles"""
        kind = domain
        if domain == "num":
            kind = rng.choice(["num", "num", "num", "even", "errors", "sizes", "text"]) if log else rng.choice(["num", "num", "num", "even", "errors", "sizes", "text", "color"])
        style = lambda v, *ins: pick("style " + v, lambda: new("style:" + v, *[i() for i in ins]))
        a, f = lambda: A(*lines), lambda: A(*fills)
        if kind == "num":
            d = pick("data", flatdata)
            st = [style(*rng.choice([("line", a), ("symbol", a), ("changesymbol", f), ("impulses", a)])) for i in range(rng.choice([1, 1, 2]))]
        elif kind == "even":
            d, st = pick("even", lambda: new("data:even")), [style(*rng.choice([("histogram", a), ("filledhistogram", f), ("symbol", a)]))]
        elif kind == "errors":
            d, st = pick("errors", lambda: new("data:errors")), [style("symbol", a), style("errorbar", a)]
        elif kind == "sizes":
            d, st = pick("sizes", lambda: new("data:sizes")), [style("arrow", a)]
        elif kind == "text":
            d, st = pick("text", lambda: new("data:text")), [style("symbol", a), style("text")]
        elif kind == "color":
            d = pick("color", lambda: new("data:color"))
            st = [style("rect")] if rng.random() < 0.4 else [pick("style density", lambda: new("style:density", plain()))]
        elif kind == "bar":
            d = pick("bars", lambda: new(rng.choice(["data:bars", "data:morebars"])))
            st = ([style("barpos")] if rng.random() < 0.5 else []) + [style("bar", f)]
        elif kind == "split":
            d, st = pick("split", lambda: new("data:split")), [style(*rng.choice([("line", a), ("symbol", a)]))]
        else:
            d = pick("space", lambda: new(rng.choice(["data:space", "data:curve"])))
            if objs[d - 1]["v"] == "data:curve":
                st = [style(*rng.choice([("line", a), ("symbol", a)]))]
            else:
                st = [style("grid", a)] if rng.random() < 0.6 else [pick("style surface", lambda: new("style:surface", plain()))]
        if key and kind in ("sizes", "color", "text") or log and kind in ("even", "errors"):
            return plotargs("num", log, key)
        if rng.random() < 0.15 and kind in ("num", "errors", "split"):
            return [d]
        return [d, pick("styles " + " ".join(map(str, st)), lambda: new("styles", *st))]

    ops, graphs, domain = [], [], "num"
    for i in range(rng.randint(6, 14)):
        can = [n for n, g in enumerate(graphs) if not g["done"]]
        if len(graphs) < 2 or len(graphs) < 5 and rng.random() < 0.25:
            domain = rng.choice(["num"] * 6 + ["bar", "bar", "bar", "split", "split", "3d"] + [domain] * 6)
            x = dict(num=num, bar=bars, split=split, **{"3d": num})[domain]()
            y = num()
            v = "xyz" if domain == "3d" else rng.choice(["xy", "xykey", "xykey", "xykeyback", "xyx2y2", "flipped"])
            if domain in ("bar", "split", "3d"):
                x = x if domain != "3d" else plain()
                y = plain()
            ins = [x, y]
            if v in ("xykey", "xykeyback"):
                ins.append(pick("key", lambda: new("key:bl", A("attrs:filled", "attrs:red")) if rng.random() < 0.4 else new(rng.choice(["key:tr", "key:mid"]))))
            if v == "xykeyback":
                ins.append(A("attrs:filled"))
            if v == "xyx2y2":
                ins += [fixed(), fixed()]
            if v == "xyz":
                ins.append(plain())
            log = any("log" in objs[i - 1]["v"] for i in ins)
            ops.append(dict(k="graph", g=0, c=v, **{"in": ins}))
            graphs.append(dict(domain=domain, plots=0, done=False, args=(domain, log, v in ("xykey", "xykeyback"))))
            ops.append(dict(k="call", g=len(graphs), c="plot", **{"in": plotargs(*graphs[-1]["args"])}))
            graphs[-1]["plots"] += 1
            continue
        n = rng.randrange(len(graphs))
        g = graphs[n]
        r = rng.random()
        if r < 0.45:
            ops.append(dict(k="call", g=n + 1, c="plot", **{"in": plotargs(*g["args"])}))
        elif r < 0.6 and g["plots"]:
            ops.append(dict(k="call", g=n + 1, c=rng.choice(["ranges", "layout", "axes", "styles", "doplot", "finish"]), **{"in": []}))
        else:
            ops.append(dict(k="write", g=n + 1, c="", f=rng.randrange(3), **{"in": []}))
    order = list(range(len(graphs)))
    rng.shuffle(order)
    for n in order:
        ops.append(dict(k="write", g=n + 1, c="", f=rng.randrange(3), **{"in": []}))
    return objs, ops


def run(ctx):
    from pyx import text
    import logging
    StubEngine, StubBox = stubtext.make()

    class Engine(StubEngine):
        def text_pt(self, x_pt, y_pt, text, *args, **kwargs):
            return StubEngine.text_pt(self, x_pt, y_pt, getattr(text, "tex", text), *args, **kwargs)
    saved = text.defaulttextengine
    text.defaulttextengine = Engine(3)
    logging.getLogger("pyx").setLevel(logging.CRITICAL)
    try:
        depth = ctx.n(5, 6)
        r = ctx.model_check("SharingMC", constants=dict(MaxOps=depth, MaxGraphs=2), invariants=["Values", "Emit"], properties=["Apart", "Fixed"],
                            label="all sharing histories of %d operations" % depth, heap="12g")
        cases = [json.loads(p[1:]) for p in r.prints]
        ctx.note(histories=len(cases))
        useful = [c for c in cases if any(o["k"] == "write" for o in c["ops"]) and sum(o["c"] == "plot" for o in c["ops"]) > 1]
        k = ctx.n(250, 3000)
        if len(useful) > k:
            useful = ctx.rng.sample(useful, k)
        pool = [dict(v=v, id=isid(v), **{"in": i}) for v, i in (("attrs:change", []), ("axis:auto", []), ("axis:auto", []), ("data:low", []), ("data:low", []), ("data:high", []),
                                                               ("style:line", [1]), ("style:line", [1]))]
        hist = []
        for c in useful:
            # a style given to plot is given in a list of its own; write everything at the end
            ops = [dict(o, c="xy") if o["k"] == "graph" else o for o in c["ops"]]
            objs = list(pool)
            out = []
            for o in ops:
                if o["c"] == "plot":
                    objs.append(dict(v="styles", id=False, **{"in": [o["in"][1]]}))
                    o = dict(o, **{"in": [o["in"][0], len(objs)]})
                out.append(o)
            n = sum(o["k"] == "graph" for o in ops)
            out += [dict(k="write", g=i, c="", **{"in": []}) for i in (range(n, 0, -1) if len(hist) % 2 else range(1, n + 1))]
            hist.append((objs, out))
        hist += [scenario(ctx.rng) for i in range(ctx.n(220, 3000))]
        refs = references([x for objs, ops in hist for x in recipes_of(ops, objs)])
        bad = {k: v for k, v in refs.items() if any(d.startswith("failed") for d in v)}
        traces = []
        dropped = 0
        for objs, ops in hist:
            rs = {json.dumps(x, sort_keys=True): x for x in recipes_of(ops, objs)}
            if any(k in bad for k in rs):
                dropped += 1
                continue
            ctx.traces += 1
            traces.append(dict(ev=live(ops, objs), refs=[dict(r=x, d=refs[k]) for k, x in rs.items()]))
        ctx.note(recipes=len(refs), unusable_recipes=len(bad), histories_dropped=dropped, reasons=sorted({d[:90] for v in bad.values() for d in v})[:12])
    finally:
        text.defaulttextengine = saved

    def key(t, l, why):
        e = t["ev"][l - 1]
        return "sharing:%s:%s" % (why, e.get("failed", "")[:60] if e.get("failed") else e.get("v", ""))

    def describe(t, l, why):
        e = t["ev"][l - 1]
        return "%s at event %d %s" % (why, l, json.dumps({k: v for k, v in e.items() if k not in ("d",)})[:300])
    ctx.validate("SharingTrace", traces, key=key, describe=describe, heap="8g")
    if traces:
        ctx.sample({"history": [e for e in traces[-1]["ev"] if e["k"] != "object"]}, 2)
