"""R06: the life cycle of a graph (spec/GraphLife.tla, GraphMC.tla): all short call histories replayed into real graphs."""
import io, json
from vp import guard
import paints, stubtext

COLORS = {1: ["#ff0000", "#00ff00", "#0000ff", "#ff00ff", "#ff8000", "#0080ff", "#80ff00"], 2: ["#00ffff", "#ffff00", "#008000", "#800000", "#8000ff", "#ff0080", "#00ff80"]}
KINDS = {1: (0, 10, False, True, 1), 2: (-10, 6, False, True, 2), 3: (0, 0, True, True, 1), 4: (4, 25, False, False, 1)}
Y = {1: 1.0, 2: 2.0, 3: 3.0, 4: 3.5}
W, H = 200.0, 100.0


def write(g, fmt, how, again=False):
    from pyx import canvas, document, bbox, unit
    f = io.BytesIO()
    if how == 1:
        c = canvas.canvas()
        c.insert(g)
    elif how == 2:
        # a page whose box does not depend on its content
        document.document([document.page(g, bbox=bbox.bbox_pt(-300, -300, 500, 500))]).__getattribute__("write%sfile" % fmt.upper())(f, **(dict(compress=False) if fmt == "pdf" else {}))
        return f.getvalue()
    else:
        c = g
    if fmt == "pdf":
        document.document([document.page(c)]).writePDFfile(f, compress=False)
    else:
        getattr(c, "write%sfile" % fmt.upper())(f)
    return f.getvalue()


def drawing(data, fmt, flipped, x0, y0):
    """background, axes and the lines of data and key as they appear, in graph coordinates"""
    res = dict(bg=0, axes=0, data=[], key=[], odd=[])
    for p in paints.READ[fmt](data):
        if p["op"] == "text":
            continue
        pts = [q for k, qs in p["d"] for q in qs]
        if p["op"] == "fill" and p["color"] == "#808080":
            res["bg"] += 1
        elif p["op"] == "stroke" and p["color"] == "#000000":
            res["axes"] += 1
        elif p["op"] == "stroke":
            short = len(pts) == 2 and abs(abs(pts[0][0] - pts[1][0]) - 7) < 0.1 and abs(pts[0][1] - pts[1][1]) < 0.1
            if short:
                res["key"].append((p["color"], -pts[0][1]))
            else:
                v = [((x - x0) / W, (y - y0) / H) for x, y in pts]
                if flipped:
                    v = [(b, a) for a, b in v]
                res["data"].append((p["color"], v))
        else:
            res["odd"].append(p)
    return res


def replay(ctx, c, n, StubEngine):
    from pyx import attr, color, deco, graph, style, text, unit
    from pyx.graph import axis
    fmt = ["eps", "pdf", "svg"][n % 3]
    how = (n // 3) % 3
    flipped = (n // 9) % 4 == 1
    haskey = (n // 18) % 4 != 1
    x0, y0 = (0, 0) if n % 2 else (30, -40)
    rgb = lambda h: color.rgb(*[int(h[i:i + 2], 16) / 255.0 for i in (1, 3, 5)])
    groups = {k: [graph.style.line([attr.changelist([rgb(h) for h in v])])] for k, v in COLORS.items()}
    pt = lambda v: v * unit.t_pt
    g = graph.graphxy(xpos=pt(x0), ypos=pt(y0), width=pt(W), height=pt(H), flipped=flipped, x=axis.lin(parter=None), y=axis.lin(min=0, max=4, parter=None),
                      key=graph.key.key(symbolwidth=pt(7), symbolheight=pt(3), hinside=0, hdist=pt(40), dist=pt(3)) if haskey else None,
                      backgroundattrs=[deco.filled([color.gray(128 / 255.0)])])
    items = []

    def plot(k):
        lo, hi, dyn, title, grp = KINDS[k]
        t = "T%d" % k if title else None
        if dyn:
            d = graph.data.function("y(x)=%r" % Y[k], points=4, title=t)
        else:
            d = graph.data.points([(lo, Y[k]), (hi, Y[k])], x=1, y=2, title=t)
        items.append(g.plot(d, groups[grp], rangewarning=0))
    plot(1)
    name = dict(ranges=g.doranges, layout=g.dolayout, background=g.dobackground, axes=g.doaxes, styles=g.dostyles, doplot=g.doplot, key=g.dokey, finish=g.finish, bbox=g.bbox,
                axis=lambda: g.doaxiscreate("y" if n % 2 else "x"), pos=lambda: g.pos(1, 1), write=lambda: write(g, fmt if n % 4 else "eps", how if n % 5 else 0))
    for i, o in enumerate(c["ops"]):
        if o["k"] == "plot":
            r = guard(plot, o["i"])
        elif o["k"] in ("plotitem", "keyitem"):
            r = guard(getattr(g, "do" + o["k"]), items[o["i"] - 1])
        else:
            r = guard(name[o["k"]])
        if r.ok != o["ok"]:
            return "%s:%s" % (o["k"], "refused" if o["ok"] else "accepted"), "call %d (%s): %s" % (i + 1, o["k"], r.exc)
    r = guard(lambda: drawing(write(g, fmt, how), fmt, flipped, x0, y0))
    if not r.ok:
        return "write", str(r.exc)
    got, d = r.value, c["d"]
    lo, hi = d["rng"]
    if got["odd"]:
        return "odd", repr(got["odd"])
    if got["bg"] != d["bg"]:
        return "background", "background painted %d times" % got["bg"]
    if got["axes"] != 4 * d["axes"]:
        return "axes", "%d axis lines instead of %d" % (got["axes"], 4 * d["axes"])
    want = [e for e in d["data"] if e["part"]]
    if len(want) != len(got["data"]):
        return "data", "%d lines instead of %d" % (len(got["data"]), len(want))
    for e, (col, v) in zip(want, got["data"]):
        if col != COLORS[KINDS[e["p"]][4]][e["sel"][0]]:
            return "select", "plot %d painted with %s instead of style %d of its list" % (e["p"], col, e["sel"][0])
        ends = sorted([v[0], v[-1]])
        ex = [(e["part"][i] - lo) / (hi - lo) for i in (0, 1)]
        if any(abs(a - b) > 2e-3 for a, b in zip([ends[0][0], ends[1][0]], ex)) or any(abs(q[1] - Y[e["p"]] / 4) > 2e-3 for q in v):
            return "position", "plot %d painted at %r instead of %r, range %r" % (e["p"], v, ex, d["rng"])
    if haskey:
        wk = [COLORS[KINDS[e["p"]][4]][e["sel"][0]] for e in d["key"]]
        gk = [col for col, y in got["key"]]
        if wk != gk or [y for col, y in got["key"]] != sorted(y for col, y in got["key"]):
            return "key", "key shows %r instead of %r" % (got["key"], wk)
    elif got["key"]:
        return "key", "a key appeared"
    again = guard(lambda: drawing(write(g, fmt, how), fmt, flipped, x0, y0))
    if not again.ok or again.value != got:
        return "again", "writing again gives %r instead of %r" % (again.value if again.ok else again.exc, got)
    f2 = ["eps", "pdf", "svg"][(n + 1) % 3]
    other = guard(lambda: drawing(write(g, f2, (how + 1) % 3), f2, flipped, x0, y0))
    same = other.ok and [x[0] for x in other.value["data"]] == [x[0] for x in got["data"]] and [x[0] for x in other.value["key"]] == [x[0] for x in got["key"]] and (other.value["bg"], other.value["axes"]) == (got["bg"], got["axes"])
    if not same:
        return "other", "writing %s gives %r instead of %r" % (f2, other.value if other.ok else other.exc, got)


def run(ctx):
    from pyx import text
    StubEngine, StubBox = stubtext.make()
    depth = ctx.n(4, 5)
    r = ctx.model_check("GraphMC", constants=dict(MaxOps=depth), raw=dict(Kinds="<- TheKinds"), invariants=["Once", "Stable", "Canonical", "Emit"], properties=["Fixed"],
                        label="all histories of %d calls" % depth, heap="12g")
    cases = [json.loads(p[1:]) for p in r.prints]
    ctx.note(histories=len(cases))
    k = ctx.n(1500, 20000)
    if len(cases) > k:
        cases = ctx.rng.sample(cases, k)
    saved = text.defaulttextengine
    text.defaulttextengine = StubEngine(0.02)
    try:
        for n, c in enumerate(cases):
            ctx.traces += 1
            o = guard(replay, ctx, c, n, StubEngine)
            bad = o.value if o.ok else ("failure", str(o.exc))
            if bad:
                ctx.violation("life:" + bad[0], "calls %r (variant %d): %s" % ([(x["k"], x["i"]) for x in c["ops"]], n % 72, bad[1]), c)
    finally:
        text.defaulttextengine = saved
    ctx.sample({"history": cases[len(cases) // 2]}, 2)
