"""R12: how axes are painted (spec/Painter.tla): every combination of the options of a painter on every side of a graph and along lines,
and random graphs with several axes; the strokes and texts of the written file are judged by TLC."""
import io, json
from vp import guard
import paints

NOLEN = -1000000
U = 100.0


def texts():
    """texts are filled boxes: "colour|width|height" (hundredths of a point)"""
    from pyx import attr, baseclasses, box, canvas, color, deco, path, trafo, unit

    class Text(box.rect_pt, baseclasses.canvasitem):
        def __init__(self, x, y, text, textattrs):
            col, w, h = str(text).split("|")
            w, h = int(w) / U, int(h) / U
            self.col = color.rgb(*[int(col[i:i + 2], 16) / 255.0 for i in (1, 3, 5)])
            box.rect_pt.__init__(self, x - 0.5 * w, y - 0.5 * h, w, h, abscenter_pt=(0.5 * w, 0.5 * h))
            for t in attr.getattrs(list(textattrs), [trafo.trafo_pt]):
                self.reltransform(t)

        def item(self):
            c = canvas.canvas()
            c.fill(self.path(), [self.col])
            return c

        def bbox(self):
            return box.rect_pt.bbox(self)

        def requiretextregion(self):
            return False

        def processPS(self, *args):
            self.item().processPS(*args)

        def processPDF(self, *args):
            self.item().processPDF(*args)

        def processSVG(self, *args):
            self.item().processSVG(*args)

    class Engine:
        def text_pt(self, x, y, text, textattrs=[], **kwargs):
            return Text(x, y, text, textattrs)

        def text(self, x, y, text, textattrs=[], **kwargs):
            return Text(unit.topt(x), unit.topt(y), text, textattrs)
    return Engine()


def pt(v):
    from pyx import unit
    return v / U * unit.t_pt


def rgb(c):
    from pyx import color
    return color.rgb(*[int(c[i:i + 2], 16) / 255.0 for i in (1, 3, 5)])


def lengths(v, how):
    from pyx import attr
    from pyx.graph.axis import painter
    if not v:
        return None
    if len(v) == 1 and how % 2:
        return pt(v[0])
    if len(v) > 2 and all(2 * b == a for a, b in zip(v, v[1:])) and how % 2:
        return painter.ticklength(pt(v[0]), 0.5)
    return attr.changelist([None if x == NOLEN else pt(x) for x in v])


def strokeattrs(c, how):
    from pyx import attr
    if not c["on"]:
        return None
    if len(c["c"]) == 1:
        return [] if c["c"] == ["#000000"] and how % 2 else [rgb(c["c"][0])]
    return [attr.changelist([None if x == "none" else rgb(x) for x in c["c"]])]


def makepainter(p, kind, how, linked=False):
    from pyx.graph.axis import painter
    if not p["on"]:
        return None
    d = dict(none=None, parallel=painter.rotatetext.parallel if how % 2 else painter.rotatetext(90), orthogonal=painter.rotatetext.orthogonal if how % 2 else painter.rotatetext(180))
    kw = dict(basepathattrs=None if p["base"] == "none" else ([] if p["base"] == "#000000" and how % 3 else [rgb(p["base"])]), titledist=pt(p["tdist"]), titleattrs=[] if p["title"] else None,
              titledirection=d[p["tdir"]], titlepos=p["tpos"] / 100.0)
    if kind == "bar":
        one = lambda v: pt(v[0]) if v else None
        kw.update(innerticklength=one(p["inner"]), outerticklength=one(p["outer"]), tickattrs=[rgb(p["tick"]["c"][0])] if p["tick"]["on"] else None,
                  namedist=pt(p["dist"]), nameattrs=[] if p["label"] else None, namedirection=d[p["dir"]], namepos=p["npos"] / 100.0, namehequalize=p["heq"], namevequalize=p["veq"])
        if how % 5 == 1:
            return painter.bar(namedist=pt(77), titlepos=0.3, namevequalize=0)(**kw)
        return (painter.linkedbar if linked else painter.bar)(**kw)
    kw.update(innerticklength=lengths(p["inner"], how), outerticklength=lengths(p["outer"], how // 2), tickattrs=strokeattrs(p["tick"], how), gridattrs=strokeattrs(p["grid"], how),
              labeldist=pt(p["dist"]), labelattrs=[] if p["label"] else None, labeldirection=d[p["dir"]], labelhequalize=p["heq"], labelvequalize=p["veq"])
    if how % 5 == 1:   # a painter called with other arguments is a painter with these changed
        first = painter.regular(labeldist=pt(77), gridattrs=[], titlepos=0.3, labelvequalize=0)
        return first(**kw)
    return (painter.linked if linked else painter.regular)(**kw)


def txt(t):
    return "%s|%d|%d" % (t["c"], t["w"], t["h"])


def makeaxis(x, p, linkp, how):
    from pyx.graph import axis
    from pyx.graph.axis import tick
    title = "%s|%d|%d" % (x["title"][2], x["title"][0], x["title"][1]) if x["title"] else None
    kw = dict(title=title, painter=makepainter(p, x["kind"], how))
    if linkp is not None:
        kw["linkpainter"] = makepainter(linkp, x["kind"], how, True)
    if x["kind"] == "bar":
        return axis.bar(dist=1, reverse=x["rev"], **kw)
    ticks = [tick.tick(t["v"], ticklevel=None if t["tl"] < 0 else t["tl"], labellevel=None if t["ll"] < 0 else t["ll"], label=txt(t) if t["ll"] >= 0 else None) for t in x["ticks"]]
    if how % 3 == 2:
        ticks.reverse()
    lo, hi, rev = x["lo"], x["hi"], x["rev"]
    if how % 4 == 3:
        lo, hi, rev = hi, lo, not rev
    return axis.lin(min=lo, max=hi, reverse=rev, parter=None, manualticks=ticks, **kw)


def seen(data, fmt, x0=0, y0=0):
    strokes, boxes, odd = [], [], 0
    r = lambda v: int(round(v * U))
    for p in paints.READ[fmt](data):
        pts = [q for k, qs in p["d"] for q in qs]
        if p["op"] == "stroke" and len(pts) == 2:
            strokes.append(dict(x0=r(pts[0][0]), y0=r(pts[0][1]), x1=r(pts[1][0]), y1=r(pts[1][1]), c=p["color"]))
        elif p["op"] == "fill" and len(pts) >= 4:
            pts = pts[:4]
            boxes.append(dict(x=r(sum(q[0] for q in pts) / 4), y=r(sum(q[1] for q in pts) / 4), lx=r(pts[0][0]), ly=r(pts[0][1]), c=p["color"]))
        else:
            odd += 1
            boxes.append(dict(x=0, y=0, lx=0, ly=0, c="odd"))
    return strokes, boxes


def write(c, fmt):
    f = io.BytesIO()
    getattr(c, "write%sfile" % fmt.upper())(f, **(dict(write_compress=False) if fmt == "pdf" else {}))
    return f.getvalue()


def graph_event(g, fmt, how):
    from pyx import graph

    def build():
        kw, later = {}, []
        for e in g["axes"]:
            name = e["name"] + (str(e["n"]) if e["n"] > 1 else "")
            if e.get("link"):
                continue
            linkp = next((o["p"] for o in g["axes"] if o.get("link") and o["name"] == e["name"]), None) if e["n"] == 1 else None
            kw[name] = makeaxis(e["x"], e["p"], linkp, how)
        for n in "xy":
            if not any(e["name"] == n and e["n"] == 2 for e in g["axes"]):
                kw[n + "2"] = None
            at = next((e for e in g["axes"] if e["name"] == n and e["n"] == 1 and e["at"]), None)
            if at:
                kw.pop(n + "2", None)
                kw[n + "axisat"] = at["atvalue"]
        gr = graph.graphxy(xpos=pt(g["x"]), ypos=pt(g["y"]), width=pt(g["w"]), height=pt(g["h"]), flipped=g["flipped"], axesdist=pt(g["axesdist"]), **kw)
        for e in g["axes"]:
            if e["x"]["kind"] == "bar" and not e.get("link"):
                gr.axes[e["name"] + (str(e["n"]) if e["n"] > 1 else "")].adjustaxis([(txt(t), v) for t in e["x"]["names"] for v in (0, 1)])
        return write(gr, fmt)
    o = guard(build)
    strokes, boxes = seen(o.value, fmt) if o.ok else ([], [])
    return dict(k="graph", g=g, strokes=strokes, texts=boxes, failed=o.exc or "")


def line_event(a, x, p, fmt, how):
    from pyx import path
    from pyx.graph import axis
    ext = []

    def build():
        right = (a["x1"] - a["x0"]) * a["dy"] - (a["y1"] - a["y0"]) * a["dx"] > 0
        if x["kind"] == "bar":
            ax = axis.axis.anchoredaxis(makeaxis(x, p, None, how), __import__("pyx").text.defaulttextengine, "bars")
            ax.adjustaxis([(txt(t), v) for t in x["names"] for v in (0, 1)])
            ax.setpositioner(axis.positioner.pathpositioner(path.line(pt(a["x0"]), pt(a["y0"]), pt(a["x1"]), pt(a["y1"])), direction=1 if right else -1))
            c = ax.create()
        else:
            c = axis.pathaxis(path.line(pt(a["x0"]), pt(a["y0"]), pt(a["x1"]), pt(a["y1"])), makeaxis(x, p, None, how), direction=1 if right else -1)
        ext.append(int(round(c.extent_pt * U)))
        return write(c, fmt) if len(c.items) and any(len(l.items) for l in c.layers.values()) else None
    o = guard(build)
    strokes, boxes = seen(o.value, fmt) if o.ok and o.value else ([], [])
    return dict(k="line", a=a, x=x, p=p, strokes=strokes, texts=boxes, ext=ext[0] if ext else 0, failed=o.exc or "")


LINES = {"line": dict(x0=0, y0=0, x1=18000, y1=24000, dx=-8, dy=6), "line back": dict(x0=18000, y0=24000, x1=0, y1=0, dx=-8, dy=6)}
OFF = dict(kind="lin", lo=0, hi=4, rev=False, ticks=[], names=[], title=[])


def nopainter():
    return dict(on=False, inner=[], outer=[], tick=dict(on=False, c=["#000000"]), grid=dict(on=False, c=["#000000"]), base="none", label=False, dist=0, dir="none", heq=False, veq=False,
                title=False, tdist=0, tdir="none", tpos=50, npos=50)


# ---------------------------------------------------------------- random graphs
def colour(rng, used):
    while True:
        c = "#%02x%02x%02x" % tuple(rng.choice(range(1, 256, 2)) for i in range(3))
        if c not in used:
            used.add(c)
            return c


def randaxis(rng, used, kind=None, linemod=1):
    size = lambda: dict(w=200 * rng.randint(1, 12), h=200 * rng.randint(1, 6))
    title = []
    if rng.random() < 0.6:
        s = size()
        title = [s["w"], s["h"], colour(rng, used)]
    kind = kind or ("bar" if rng.random() < 0.25 else "lin")
    if kind == "bar":
        return dict(kind="bar", lo=0, hi=1, rev=rng.random() < 0.3, ticks=[], names=[dict(size(), c=colour(rng, used)) for i in range(rng.randint(1, 5))], title=title)
    n = rng.choice([1, 2, 3, 4, 5, 6, 8, 10])
    lo = rng.randint(-6, 6)
    ticks = []
    for v in sorted(rng.sample(range(lo, lo + n + 1), rng.randint(0, min(n + 1, 6)))):
        tl, ll = rng.choice([-1, 0, 0, 0, 1, 1, 2, 3]), rng.choice([-1, -1, 0, 0, 1, 2])
        s = size()
        ticks.append(dict(v=v, tl=tl, ll=ll, w=s["w"], h=s["h"], c=colour(rng, used) if ll >= 0 else ""))
    return dict(kind="lin", lo=lo, hi=lo + n, rev=rng.random() < 0.3, ticks=ticks, names=[], title=title)


def randpainter(rng, kind, grid=True, linked=False):
    if rng.random() < 0.07:
        return nopainter()
    L = lambda: rng.choice([[], [100 * rng.randint(1, 12)], [800, 400, 200, 100], [1600, 800, 400, 200], [100 * rng.randint(1, 9), NOLEN], [-100 * rng.randint(1, 9)], [700, 300], [0]])
    C = lambda: rng.choice([["#000000"], ["#ff0000"], ["#ff0000", "#00ff00"], ["#000000", "none"], ["none", "#0000ff", "#00ffff"], ["#ff0000", "#00ff00", "#0000ff"]])
    p = dict(on=True, inner=L(), outer=L(), tick=dict(on=rng.random() < 0.9, c=C()), grid=dict(on=grid and rng.random() < 0.4, c=C()), base=rng.choice(["#000000", "#808000", "none"]),
             label=rng.random() < 0.85 and not linked, dist=100 * rng.randint(0, 9), dir=rng.choice(["none", "parallel", "orthogonal"]), heq=rng.random() < 0.4, veq=rng.random() < 0.6,
             title=rng.random() < 0.85 and not linked, tdist=100 * rng.randint(0, 8), tdir=rng.choice(["none", "parallel", "orthogonal"]), tpos=rng.choice([0, 25, 50, 50, 100]), npos=rng.choice([0, 50, 50, 100]))
    if kind == "bar":
        p["grid"]["on"] = False
        p["inner"] = p["inner"][:1] if p["inner"][:1] != [NOLEN] else []
        p["outer"] = p["outer"][:1]
        p["tick"]["c"] = [rng.choice(["#000000", "#ff0000"])]
    return p


def randgraph(rng):
    used = {"#000000", "#ff0000", "#00ff00", "#0000ff", "#00ffff", "#808000"}
    g = dict(x=100 * rng.randint(-40, 40), y=100 * rng.randint(-40, 40), w=24000, h=12000, flipped=rng.random() < 0.3, axesdist=100 * rng.randint(0, 30), axes=[])
    ats = {}
    for name in "xy":
        at = rng.random() < 0.2
        numbers = [1] + ([2] if rng.random() < 0.6 and not at else []) + ([3] if rng.random() < 0.5 else [])
        if 3 in numbers and rng.random() < 0.4:
            numbers.append(5)
        if 2 in numbers and rng.random() < 0.4:
            numbers.append(4)
        first = None
        for n in numbers:
            link = n == 2 and rng.random() < 0.5
            x = first if link else randaxis(rng, used)
            first = first or x
            p = randpainter(rng, x["kind"], linked=link)
            g["axes"].append(dict(name=name, n=n, x=x, p=p, at=[], link=link))
        ats[name] = at
    for name, other in (("x", "y"), ("y", "x")):
        o = next(e["x"] for e in g["axes"] if e["name"] == other and e["n"] == 1)
        if ats[name] and o["kind"] == "lin":
            v = rng.randint(o["lo"], o["hi"])
            e = next(e for e in g["axes"] if e["name"] == name and e["n"] == 1)
            e["at"] = [o["hi"] - v if o["rev"] else v - o["lo"], o["hi"] - o["lo"]]
            e["atvalue"] = v
    for e in g["axes"]:   # an axis with a link painter is given once
        e.setdefault("atvalue", 0)
    return g


def run(ctx):
    from pyx import text
    saved = text.defaulttextengine
    text.defaulttextengine = texts()
    traces = []
    try:
        r = ctx.model_check("PainterMC", constants=dict(Deep=ctx.tier == "thorough"), invariants=["Outside", "Beyond", "Aligned", "Readable", "Emit"],
                            label="all options of a painter", heap="12g")
        cases = [json.loads(q[1:]) for q in r.prints]
        ctx.note(combinations=len(cases))
        k = ctx.n(1500, 20000)
        if len(cases) > k:
            cases = ctx.rng.sample(cases, k)
        for n, c in enumerate(cases):
            fmt = ("eps", "svg", "pdf")[n % 3]
            if c["side"] in LINES:
                traces.append(dict(ev=[line_event(LINES[c["side"]], c["x"], c["p"], fmt, n // 3)]))
            else:
                name, num = dict(below=("x", 1), left=("y", 1), above=("x", 2), right=("y", 2))[c["side"]]
                axes = [dict(name=name, n=num, x=c["x"], p=c["p"], at=[], link=False, atvalue=0)]
                for o in "xy":
                    if not (o == name and num == 1):
                        axes.append(dict(name=o, n=1, x=OFF, p=nopainter(), at=[], link=False, atvalue=0))
                traces.append(dict(ev=[graph_event(dict(x=0, y=0, w=24000, h=12000, flipped=False, axesdist=0, axes=axes), fmt, n // 3)]))
            ctx.traces += 1
        for n in range(ctx.n(400, 6000)):
            fmt = ("eps", "svg", "pdf")[n % 3]
            if n % 4 == 3:
                used = {"#000000", "#ff0000", "#00ff00", "#0000ff", "#00ffff", "#808000"}
                x = randaxis(ctx.rng, used)
                a = ctx.rng.choice([LINES["line"], LINES["line back"], dict(x0=-3000, y0=1000, x1=21000, y1=1000, dx=0, dy=-10), dict(x0=0, y0=24000, x1=0, y1=0, dx=-10, dy=0),
                                    dict(x0=24000, y0=-500, x1=0, y1=17500, dx=6, dy=8)])
                p = randpainter(ctx.rng, x["kind"], grid=False)
                if a["dy"] == 0:   # the direction of ticks along a vertical path is only horizontal up to rounding: no equal alignment
                    p["heq"] = False
                traces.append(dict(ev=[line_event(a, x, p, fmt, n // 3)]))
            else:
                traces.append(dict(ev=[graph_event(randgraph(ctx.rng), fmt, n // 3)]))
            ctx.traces += 1
    finally:
        text.defaulttextengine = saved

    def key(t, l, why):
        e = t["ev"][l - 1]
        return "painter:%s:%s:%s" % (e["k"], why, e["failed"][:60])

    def describe(t, l, why):
        return "%s: %s" % (why, json.dumps(t["ev"][l - 1])[:900])
    ctx.validate("PainterTrace", traces, key=key, describe=describe, heap="8g")
    ctx.sample({"axes": traces[-1]["ev"][0].get("g", {})}, 2)
