"""R11: graph keys (spec/Key.tla, KeyMC.tla, KeyTrace.tla)."""
import io, json
import psstate
from vp import guard

T = lambda x: int(round(1000 * x))
SIZES = {1: (20, 8, 3), 2: (35, 12, 0), 3: (10, 5, 6)}


def engine():
    from pyx import box, baseclasses, unit

    class Title(box.rect_pt, baseclasses.canvasitem):
        def __init__(self, x, y, name, size):
            self.name, self.size = name, size
            w, h, d = size
            box.rect_pt.__init__(self, x, y - d, w, h + d, abscenter_pt=(0, d))

        def bbox(self):
            return box.rect_pt.bbox(self)

        def requiretextregion(self):
            return False

        def processPS(self, file, writer, context, registry, bbox):
            bbox += self.bbox()
            b = self.bbox()
            # an invisible box at the place of the text
            file.write("newpath %f %f moveto %d %d lineto closepath fill\n" % (self.center[0], self.center[1], 0, 0))

    class Engine:
        def __init__(self):
            self.sizes, self.boxes = {}, []

        def text_pt(self, x, y, name, textattrs=[], **kwargs):
            t = Title(x, y, name, self.sizes.get(name, (30, 9, 2)))
            self.boxes.append(t)
            return t

        def text(self, x, y, name, textattrs=[], **kwargs):
            return self.text_pt(unit.topt(x), unit.topt(y), name, textattrs)

        def preamble(self, *args):
            pass
    return Engine, Title


def layer(g, name):
    """the paints of one layer of a graph; titles are the fills of two points the second of which is the origin of their canvas"""
    from pyx import canvas
    c = canvas.canvas()
    c.insert(g.layer(name))
    out = io.BytesIO()
    c.writeEPSfile(out)
    res = []
    for op, d, gs in psstate.eps_paints(out.getvalue()):
        if res and res[-1][1] == d and d:
            # filled and stroked
            res[-1][3].append(look(op, d, gs))
        else:
            res.append((op, d, gs, [look(op, d, gs)]))
    return res


def look(op, d, gs, shape=None):
    dash = [round(x, 2) for x in gs.dash[0]]
    col = gs.color[1] if len(gs.color[1]) == 3 else [round(x, 3) for x in gs.color[1]] * (3 if len(gs.color[1]) == 1 else 1)
    return "%s %s %.3f %s %d %d" % ("stroke" if op == "stroke" else "fill", [round(x, 3) for x in col], gs.lw if op == "stroke" else 0, dash if op == "stroke" else "", gs.cap, gs.join)


def points(d):
    return [p for k, ps in d for p in ps]


def graph(r, given, columns, opt):
    """build a graph, return the event"""
    from pyx import graph as G, unit, style, color, deco, text, attr
    pt = unit.t_pt
    axis = lambda lo, hi: G.axis.lin(min=lo, max=hi, parter=None)
    kw = {}
    c = dict(columns=columns, dist=r.choice([2, 5, 0]), sw=r.choice([16, 10]), sh=r.choice([8, 6, 20]), ss=r.choice([4, 0]), cd=r.choice([15, 6]),
             hd=r.choice([17, 5, 0]), vd=r.choice([11, 4]), border=r.choice([-1, -1, 6, 3]), hin=r.random() < 0.7, vin=r.random() < 0.7)
    h, v = r.choice([0, 2, 4]), r.choice([0, 2, 4])
    pos = None
    if r.random() < 0.3:
        h, v = (r.choice([0, 1, 2, 3, 4]) if c["hin"] else h), (r.choice([0, 1, 2, 3, 4]) if c["vin"] else v)
        kw.update(pos=None, hpos=h / 4, vpos=v / 4)
    else:
        pos = "bmt"[v // 2] + "lcr"[h // 2]
        if r.random() < 0.5:
            pos = pos[::-1]
        if pos not in ("tr", "rt") or r.random() < 0.5:
            kw["pos"] = pos
    c["h"], c["v"] = h, v
    framelw = 0
    if c["border"] >= 0:
        attrs, framelw = r.choice([([deco.stroked([style.linewidth(2 * pt)])], 1), ([deco.filled([color.rgb.green])], 0), ([deco.filled([color.rgb.green]), deco.stroked([style.linewidth(1 * pt)])], 0.5)])
        kw.update(keyattrs=attrs, border=c["border"] * pt)
    key = G.key.key(dist=c["dist"] * pt, symbolwidth=c["sw"] * pt, symbolheight=c["sh"] * pt, symbolspace=c["ss"] * pt, columns=columns, columndist=c["cd"] * pt,
                    hdist=c["hd"] * pt, vdist=c["vd"] * pt, hinside=int(c["hin"]), vinside=int(c["vin"]), **kw)
    area = [r.choice([0, 30, -20]), r.choice([0, 12]), 400, r.choice([200, 300])]
    opt["area"] = area
    n = len(given)
    g = G.graphxy(xpos=area[0] * pt, ypos=area[1] * pt, width=area[2] * pt, height=area[3] * pt, key=key, x=axis(0, 10), y=axis(0, n + 1))
    S = G.style
    attrsets = [lambda: [], lambda: [color.rgb(*[r.choice([0, 0.5, 1]) for i in range(3)])], lambda: [style.linewidth(r.choice([1, 2]) * pt)], lambda: [r.choice([style.linestyle.dashed, style.linestyle.dotted])],
                lambda: [color.gradient.RedBlue, style.linewidth(1 * pt)], lambda: [attr.changelist([style.linestyle.solid, style.linestyle.dashed])], lambda: [color.gradient.Rainbow, style.linecap.round]]
    makers = dict(line=lambda a: [S.line(a)], symbol=lambda a: [S.symbol(symbol=r.choice([S.symbol.cross, S.symbol.changesquare, S.symbol.changetriangle, S.symbol.changecircletwice, S.symbol.diamond]), size=r.choice([4, 8]) * pt,
                                                                 symbolattrs=a + r.choice([[], [deco.filled], [attr.changelist([deco.stroked, deco.filled])]]))],
                  linesymbol=lambda a: [S.line(a), S.symbol(symbol=S.symbol.changediamond, symbolattrs=[color.rgb.red])],
                  hist=lambda a: [S.histogram(a)], rect=lambda a: [S.histogram([x for x in a], rectkey=1)], impulses=lambda a: [S.impulses(a)])
    plots, engsizes = [], {}
    i = 0
    items = []
    while i < n:
        kind = r.choice(["line", "line", "symbol", "symbol", "linesymbol", "hist", "rect", "impulses", "function"])
        many = min(n - i, r.choice([1, 1, 2, 3]))
        ds = []
        for j in range(i, i + many):
            name = "t%d" % j if r.random() < 0.9 else "t"
            size = SIZES.get(given[j], (0, 0, 0))
            tk = {} if given[j] else {"title": None}
            if kind == "function":
                e = "y(x)=%d" % (j + 1)
                if given[j] and r.random() < 0.5:
                    name = e
                elif given[j]:
                    tk = {"title": name}
                ds.append(G.data.function(e, min=1, max=9, **tk))
            else:
                if given[j]:
                    tk = {"title": name}
                out = kind != "rect" and kind != "hist" and r.random() < 0.05
                xs = [1, 5, 9]
                ds.append(G.data.points([(x if not out else x + 20, j + 1) for x in xs], x=1, y=2, **tk))
            if given[j]:
                engsizes.setdefault(name, size)
            plots.append(dict(titled=bool(given[j]), name=name, kind={"function": "line"}.get(kind, kind), dat=[]))
        a = r.choice(attrsets)()
        st = makers["line" if kind == "function" else kind](a)
        arg = ds if many > 1 or r.random() < 0.5 else ds[0]
        res = g.plot(arg, st) if kind != "function" or r.random() < 0.7 else g.plot(arg)
        items += res if isinstance(res, list) else [res]
        i += many
    order = list(range(n))
    if opt["order"] == "some" and n > 1:
        # entries requested explicitly come first
        first = r.sample(order, r.randint(1, n))
        order = first + [k for k in order if k not in first]
        opt["first"] = first
    return g, key, c, T(framelw), [plots[k] for k in order], plots, engsizes, items, area


def record(r, given, columns, opt, Engine, again=None):
    from pyx import text
    eng = Engine()
    text.defaulttextengine = eng
    o = guard(graph, r, given, columns, opt)
    if not o.ok:
        return dict(c={}, plots=[], texts=[], paints=[], frame=[], framelw=0, area=[], failed=o.exc), None
    g, key, c, framelw, ordered, plots, sizes, items, area = o.value
    eng.sizes = sizes
    for p in plots:
        if p["titled"]:
            # all titles of the same name have the same size
            p["size"] = sizes[p["name"]]

    def finish():
        for k in opt.get("first", []):
            g.dokeyitem(items[k])
        if r.random() < 0.5:
            g.dokey()
            g.doplot()
        else:
            g.finish()
        g.dokey()
        return layer(g, "data") + layer(g, "filldata"), layer(g, "key")
    e = dict(c={k: (v if k in ("columns", "h", "v", "hin", "vin") else T(v)) for k, v in c.items()}, texts=[], paints=[], frame=[], framelw=0, area=[T(x) for x in area], failed="")
    e["c"]["border"] = T(c["border"]) if c["border"] >= 0 else -1
    o = guard(finish)
    for p in ordered:
        p.pop("size", None)
    e["plots"] = ordered
    if not o.ok:
        e["failed"] = o.exc
        return e, g
    data, keyp = o.value
    n = len(given)
    rel = {}
    unit_y = area[3] / (n + 1)
    for op, d, gs, looks in data:
        ps = points(d)
        if not ps:
            continue
        j = None
        for k in range(n):
            y = area[1] + (k + 1) * unit_y
            lo, hi = min(q[1] for q in ps), max(q[1] for q in ps)
            kind = plots[k]["kind"]
            if kind in ("line", "hist", "linesymbol", "rect") and abs(hi - y) < 0.01 and max(q[0] for q in ps) - min(q[0] for q in ps) > area[2] / 3 or kind in ("symbol", "linesymbol") and abs((lo + hi) / 2 - y) < 8 and max(q[0] for q in ps) - min(q[0] for q in ps) < 30 or kind == "impulses" and abs(hi - y) < 0.01:
                j = k
        if j is None:
            continue
        v = " + ".join(looks)
        small = max(q[0] for q in ps) - min(q[0] for q in ps) < 30 and plots[j]["kind"] in ("symbol", "linesymbol")
        if small:
            # relative to the first data point it may belong to
            x0 = min((area[0] + x * area[2] / 10 for x in (1, 5, 9)), key=lambda x: abs(x - sum(q[0] for q in ps) / len(ps)))
            y0 = area[1] + (j + 1) * unit_y
            rel.setdefault(j, [[T(q[0] - x0), T(q[1] - y0)] for q in ps])
        if v not in plots[j]["dat"]:
            plots[j]["dat"].append(v)
    frame = []
    boxes = {}
    texts, paints = [], []
    titles = [b for b in eng.boxes]
    nt = 0
    for op, d, gs, looks in keyp:
        ps = points(d)
        if op == "fill" and [k for k, q in d] == ["m", "l", "z"] and len(ps) == 2:
            # the mark of a title: the reference point
            t = titles[nt] if nt < len(titles) else None
            nt += 1
            w, h, dd = t.size if t else (0, 0, 0)
            texts.append(dict(name=t.name if t else "?", x=T(ps[0][0]), y=T(ps[0][1]), w=T(w), h=T(h), d=T(dd)))
            continue
        paints.append((op, ps, gs, looks))
    if c["border"] >= 0 and paints:
        # the frame comes first 
        op, ps, gs, looks = paints.pop(0)
        frame = [T(min(q[0] for q in ps)), T(min(q[1] for q in ps)), T(max(q[0] for q in ps)), T(max(q[1] for q in ps))]
    e["frame"], e["texts"] = frame, texts
    # entries in order: which relative shape belongs to which illustration
    want = []
    for p in ordered:
        if p["titled"]:
            k = next(i for i, q in enumerate(plots) if q is p)
            want += {"linesymbol": [None, k], "symbol": [k]}.get(p["kind"], [None])
    for i, (op, ps, gs, looks) in enumerate(paints):
        # extents do not consider line widths
        lw = 0
        k = want[i] if i < len(want) else None
        pts = [[T(x), T(y)] for x, y in ps]
        rl = rel.get(k, pts) if k is not None else []
        if k is not None and k not in rel:
            # no visible data to compare with
            x, y = (texts[0]["x"], texts[0]["y"]) if texts else (0, 0)
            rl = None
        e["paints"].append(dict(look=" + ".join(looks), pts=pts, rel=rl, ext=[T(min(q[0] for q in ps) - lw), T(min(q[1] for q in ps) - lw), T(max(q[0] for q in ps) + lw), T(max(q[1] for q in ps) + lw)] if ps else [0, 0, 0, 0]))
    # illustrations without data: the shape is not judged
    for i, p in enumerate(e["paints"]):
        if p["rel"] is None:
            t = None
            m = 0
            for q in ordered:
                if q["titled"]:
                    step = 2 if q["kind"] == "linesymbol" else 1
                    if m <= i < m + step:
                        break
                    m += step
            idx = sum(1 for q in ordered[:ordered.index(q)] if q["titled"])
            if idx < len(texts):
                t = texts[idx]
                mx = t["x"] - e["c"]["ss"] - e["c"]["sw"] // 2
                p["rel"] = [[x - mx, y - t["y"]] for x, y in p["pts"]]
            else:
                p["rel"] = []
    return e, g


def run(ctx):
    from pyx import text
    r = ctx.rng
    saved = text.defaulttextengine
    Engine, Title = engine()
    try:
        m = ctx.model_check("KeyMC", constants=dict(MaxN=4, MaxC=3), invariants=["Places", "Few", "Ordered", "Rowwise", "Apart", "Inside", "Outside", "Emit"], label="key layouts")
        cases = [json.loads(p[1:]) for p in m.prints]
        r.shuffle(cases)
        more = [dict(given=[r.choice([0, 1, 2, 3]) for i in range(r.randint(0, 9))], columns=r.choice([1, 2, 3, 4, 5])) for i in range(ctx.n(400, 6000))]
        traces = []
        for case in cases[:ctx.n(500, 3000)] + more:
            opt = dict(order=r.choice(["plain", "plain", "some"]))
            e, g = record(r, case["given"], case["columns"], opt, Engine)
            traces.append(dict(ev=[e], opt=opt, given=case["given"]))
        ctx.sample({"trace": traces[len(traces) // 2]}, 3)

        def key(t, l, why):
            e = t["ev"][l - 1]
            return "key:%s%s" % (why, ":" + e["failed"][:70] if why == "failed" else "")
        ctx.validate("KeyTrace", traces, key=key, describe=lambda t, l, why: "%s: %s" % (why, json.dumps(t)))
    finally:
        text.defaulttextengine = saved
