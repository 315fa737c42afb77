"""X05: text engines against a real TeX (spec/TextBox.tla, TextEngine.tla, TextMC.tla, TextTrace.tla)."""
import atexit, io, json, logging
import paints
from vp import guard

COLORS = {"#000000": None, "#ff0000": "red", "#0000ff": "blue", "#00ff00": "green"}
MAPS = [[1, 0, 0, 1, 500, -300], [0, 1, -1, 0, 0, 0], [2, 0, 0, 2, 0, 0], [-1, 0, 0, 1, 0, 100], [1, 0, 0, 1, 0, 0], [0, 2, -2, 0, 100, 0]]


def H(v):
    return int(round(100 * v))


def bp(v):
    return "%.2fbp" % (v / 100)


def rule(w, h, d):
    return "\\vrule width %s height %s depth %s\\relax " % (bp(w), bp(h), bp(d))


def item(i):
    k = i["k"]
    if k == "rule":
        return rule(i["w"], i["h"], i["d"])
    if k == "kern":
        return "\\kern %s\\relax " % bp(i["w"])
    if k == "macro":
        return "\\pyxm%s " % i["name"]
    if k == "raise":
        return "\\raise %s\\hbox{%s}" % (bp(i["dy"]), rule(i["w"], i["h"], i["d"]))
    if k == "tight":
        return "\\overfullrule0pt\\hbox to %s{%s}" % (bp(i["w"]), rule(i["rw"], i["h"], 0))
    if k == "mark":
        return "\\PyXMarker{%s}" % i["name"]
    if k == "message":
        return "\\immediate\\write16{hello}"
    if k == "undefined":
        return "\\pyxundefined "
    raise ValueError(k)


def source(t):
    if t["width"]:
        s = "\\offinterlineskip\\parindent0pt " + "".join("\\leavevmode %s\\par " % "".join(item(i) for i in line) for line in t["lines"])
    else:
        s = "".join(item(i) for i in t["lines"][0])
    if t["bad"] == "encoding":
        s += "\u2014"
    return s


def trafo_(m):
    from pyx import trafo
    return trafo.trafo_pt(((m[0], m[2]), (m[1], m[3])), (m[4] / 100, m[5] / 100))


class Recorder:

    def __init__(self, rng):
        from pyx import unit
        self.rng, self.ev, self.engs, self.boxes, self.insts = rng, [], [], [], []
        unit.set(xscale=1)
        self.scale = 1

    def track(self):
        for e, multi in self.engs:
            i = e.instance if multi else e
            if i not in self.insts:
                self.insts.append(i)

    def failed(self, o):
        self.track()
        return "" if o.ok else "tex" if o.exc.startswith("TexResultError") else o.exc.split("\n")[0][:150]

    def close(self):
        from pyx import unit
        for i in self.insts:
            atexit.unregister(i._cleanup)
            guard(i._cleanup)
        unit.set(xscale=1)

    def engine(self, multi=True, latex=False, accepts=False):
        from pyx import text
        kw = dict(texmessages_run=[text.texmessage.warn]) if accepts else {}
        if self.rng.random() < 0.2:
            kw["errordetail"] = self.rng.choice([text.errordetail.none, text.errordetail.full])
        cls = {(True, False): text.TexEngine, (True, True): text.LatexEngine, (False, False): text.SingleTexEngine, (False, True): text.SingleLatexEngine}[multi, latex]
        o = guard(cls, **kw)
        if o.ok:
            self.engs.append((o.value, multi))
        self.ev.append(dict(k="engine", multi=multi, failed=self.failed(o)))
        return o.ok

    def preamble(self, e, defs, bad=False):
        s = "".join("\\def\\pyxm%s{%s}" % (m["name"], rule(m["w"], m["h"], m["d"])) for m in defs) + ("\\pyxundefined" if bad else "")
        o = guard(self.engs[e][0].preamble, s)
        self.ev.append(dict(k="preamble", e=e + 1, defs=defs, bad=bad, failed=self.failed(o)))

    def reset(self, e):
        o = guard(self.engs[e][0].reset)
        self.ev.append(dict(k="reset", e=e + 1, failed=self.failed(o)))

    def attrs(self, t):
        from pyx import text, color, style
        A = []
        if t["width"]:
            A.append(text.parbox_pt(t["width"] * t["scale"] / 100, baseline=getattr(text.parbox_pt, t["baseline"])))
        if t["valign4"] >= 0:
            A.append(text.valign(t["valign4"] / 4))
        if t["vshift"]:
            A.append(text.vshift(t["vshift"][0] / 4, rule(0, t["vshift"][1], 0)))
        if t["phantom"]:
            A.append(text.phantom)
        h, f = t["halign4"] / 4, t["flush4"] / 4
        if h or f:
            if h and f:
                A.append(text.halign(h, f))
            else:
                A.append(text.boxhalign(h) if h else text.flushhalign(f))
        if t["math"]:
            A.append(text.mathmode)
        if t["size"]:
            A.append(getattr(text.size, t["size"]))
        if COLORS[t["color"]]:
            A.append(getattr(color.rgb, COLORS[t["color"]]))
        A += [trafo_(m) for m in t["trafos"]]
        if t["bad"] == "attribute":
            A.append(style.linewidth.thick)
        # the order of unlike attributes has no meaning
        ts = [a for a in A if type(a).__name__ == "trafo_pt"]
        rest = [a for a in A if a not in ts]
        self.rng.shuffle(rest)
        at = self.rng.randint(0, len(rest))
        return rest[:at] + ts + rest[at:]

    def bbox(self, b):
        x = b.bbox()
        return [H(v) for v in x.highrestuple_pt()]

    def text(self, e, t):
        from pyx import text, unit
        A = self.attrs(t)
        s = source(t)
        kw = dict(textattrs=A)
        if t["accepts"] and not t["byengine"]:
            kw["texmessages"] = [self.rng.choice([text.texmessage.ignore, text.texmessage.warn, lambda m: m.replace("hello", "")])]
        if self.rng.random() < 0.1:
            s = text.MultiEngineText(s, "unused")
        eng = self.engs[e][0]

        def make():
            if self.rng.random() < 0.5:
                return eng.text_pt(t["x"] / 100, t["y"] / 100, s, **kw)
            return eng.text(t["x"] / 100 * unit.t_pt, t["y"] / 100 * unit.t_pt, s, **kw)
        o = guard(make)
        ev = dict(k="text", e=e + 1, t=t, failed=self.failed(o), ext=[], bbox=[])
        if o.ok:
            b = o.value
            self.boxes.append((b, t))
            ev["ext"] = [H(unit.topt(v)) for v in (b.left, b.right, b.height, b.depth)]
            ev["bbox"] = self.bbox(b)
        self.ev.append(ev)

    def transform(self, b, maps):
        o = guard(self.boxes[b][0].transform, *[trafo_(m) for m in maps])
        self.ev.append(dict(k="transform", b=b + 1, maps=maps, failed=self.failed(o), bbox=self.bbox(self.boxes[b][0])))

    def marker(self, b, name):
        o = guard(lambda: [H(__import__("pyx").unit.topt(v)) for v in self.boxes[b][0].marker(name)])
        self.ev.append(dict(k="marker", b=b + 1, name=name, failed=self.failed(o), pos=o.value if o.ok else []))

    def show(self, bs, maps, fmt):
        from pyx import canvas

        def write():
            c = canvas.canvas()
            for b, m in zip(bs, maps):
                c.insert(self.boxes[b][0], [trafo_(m)] if m != [1, 0, 0, 1, 0, 0] else [])
            f = io.BytesIO()
            getattr(c, "write%sfile" % fmt.upper())(f)
            return f.getvalue()
        o = guard(write)
        res = []
        if o.ok:
            for p in paints.READ[fmt](o.value):
                pts = [q for _, ps in p["d"] for q in ps]
                if not pts:
                    res.append(dict(color=p["op"], x=[0, 0], y=[0, 0]))
                    continue
                ok = p["op"] == "fill" and all(min(abs(q[0] - z) for z in (min(r[0] for r in pts), max(r[0] for r in pts))) < 1e-3 for q in pts)
                res.append(dict(color=p["color"] if ok else "not a rule", x=[H(min(q[0] for q in pts)), H(max(q[0] for q in pts))],
                                y=[H(min(q[1] for q in pts)), H(max(q[1] for q in pts))]))
        self.ev.append(dict(k="show", bs=[b + 1 for b in bs], maps=maps, format=fmt, failed=self.failed(o), paints=res))


def plain(rng, n):
    """the texts of the exhaustive histories"""
    return dict(lines=[[dict(k="rule", w=1000 + 100 * n, h=500, d=100)]], width=0, flush4=0, baseline="top", valign4=-1, vshift=[], phantom=False, halign4=rng.choice([0, 4]), bad="",
                accepts=False, byengine=False, x=100 * n, y=0, scale=1, trafos=[], color="#000000", math=False, size="")


def gentext(rng, accepts, bad, scale, markers):
    def one(inpar):
        r = rng.random()
        D = lambda a, b: 100 * rng.randint(a, b)
        if r < 0.45:
            return dict(k="rule", w=D(1, 12), h=D(1, 9), d=D(0, 5))
        if r < 0.6:
            return dict(k="kern", w=D(0, 5) if inpar else D(-2, 5))
        if r < 0.72:
            return dict(k="macro", name=rng.choice("ab"))
        if r < 0.82:
            return dict(k="raise", w=D(1, 9), h=D(1, 6), d=D(0, 4), dy=D(-9, 9))
        if r < 0.9:
            return dict(k="tight", w=D(1, 6), rw=D(1, 12), h=D(1, 6))
        return dict(k="mark", name=free.pop()) if free else dict(k="kern", w=0)
    # a marker occurs once in a text
    free = rng.sample(markers, len(markers))
    width = 100 * 2 * rng.choice([60, 75, 100]) if rng.random() < 0.35 else 0
    lines = [[one(width) for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(1, 3) if width else 1)]
    t = plain(rng, 0)
    t.update(lines=lines, width=width, flush4=rng.choice([0, 0, 1, 2, 4]), baseline=rng.choice(["top", "middle", "bottom"]), valign4=rng.choice([-1, -1, 0, 2, 4]),
             vshift=rng.choice([[], [], [2, 800], [4, 600], [0, 800]]), phantom=not width and rng.random() < 0.1, halign4=rng.choice([0, 0, 1, 2, 4]),
             x=100 * rng.randint(-50, 50), y=100 * rng.randint(-50, 50), scale=scale, trafos=[rng.choice(MAPS) for _ in range(rng.choice([0, 0, 0, 1, 2]))],
             color=rng.choice(sorted(COLORS)), math=not width and rng.random() < 0.15, size=rng.choice(["", "", "large", "tiny"]), byengine=accepts)
    t["accepts"] = accepts
    if rng.random() < 0.1 and not any(i["k"] == "tight" for line in lines for i in line):
        # (a line behind a box warning might belong to it)
        lines[0].append(dict(k="message"))
        if not accepts:
            t["accepts"] = rng.random() < 0.5
    if bad:
        b = rng.choice(["undefined", "encoding", "attribute", "undefined"])
        if b == "undefined":
            lines[-1].insert(rng.randint(0, len(lines[-1])), dict(k="undefined"))
            if t["accepts"]:
                # errors would be accepted as well
                lines[-1].append(dict(k="kern", w=0))
                t["bad"] = "encoding"
        else:
            t["bad"] = b
    if t["accepts"]:
        # so would be unknown macros
        for line in lines:
            line[:] = [i for i in line if i["k"] not in ("macro", "undefined")] or [dict(k="rule", w=100, h=100, d=0)]
    return t


def history(rng):
    from pyx import unit
    r = Recorder(rng)
    try:
        eng = []
        for _ in range(rng.choice([1, 1, 2])):
            accepts = rng.random() < 0.15
            if r.engine(multi=rng.random() < 0.75, latex=rng.random() < 0.1, accepts=accepts):
                eng.append(accepts)
        markers = ["m", "n"]
        define = lambda: dict(name=rng.choice("ab"), w=100 * rng.randint(1, 12), h=100 * rng.randint(1, 9), d=100 * rng.randint(0, 5))
        if rng.random() < 0.4:
            for _ in range(rng.randint(1, 3)):
                r.preamble(rng.randrange(len(eng)), [define()])
        for _ in range(rng.randint(4, 14)):
            e = rng.randrange(len(eng))
            x = rng.random()
            if x < 0.13:
                bad = rng.random() < 0.15
                r.preamble(e, [] if bad else [define() for _ in range(rng.randint(1, 2))], bad)
            elif x < 0.58:
                if rng.random() < 0.1:
                    r.scale = 3 - r.scale
                    unit.set(xscale=r.scale)
                r.text(e, gentext(rng, eng[e], rng.random() < 0.15, r.scale, markers))
            elif x < 0.64 and r.engs[e][1]:
                r.reset(e)
            elif x < 0.74 and r.boxes:
                r.transform(rng.randrange(len(r.boxes)), [rng.choice(MAPS) for _ in range(rng.randint(1, 2))])
            elif x < 0.8 and r.boxes:
                b = rng.randrange(len(r.boxes))
                names = [i["name"] for line in r.boxes[b][1]["lines"] for i in line if i["k"] == "mark"]
                if len(set(names)) == len(names) and not r.boxes[b][1]["phantom"]:
                    r.marker(b, rng.choice(names or markers))
            elif r.boxes:
                bs = [rng.randrange(len(r.boxes)) for _ in range(rng.randint(1, 3))]
                r.show(bs, [rng.choice(MAPS) for _ in bs], rng.choice(["eps", "pdf", "svg"]))
        if r.boxes:
            bs = list(range(len(r.boxes)))
            r.show(bs, [[1, 0, 0, 1, 0, 0]] * len(bs), rng.choice(["eps", "pdf", "svg"]))
        return r.ev
    finally:
        r.close()


def replay(rng, ops):
    r = Recorder(rng)
    try:
        if not r.engine():
            return r.ev
        for n, op in enumerate(ops):
            if op == "preamble":
                r.preamble(0, [dict(name="x", w=100, h=100, d=100)])
            elif op in ("text", "failing", "unsent"):
                t = plain(rng, n)
                if op == "failing":
                    t["lines"][0].append(dict(k="undefined"))
                elif op == "unsent":
                    t["bad"] = "encoding"
                r.text(0, t)
            elif op == "reset":
                r.reset(0)
            elif r.boxes:
                r.show([0 if op == "show 1" else len(r.boxes) - 1], [[1, 0, 0, 1, 0, 0]], rng.choice(["eps", "pdf", "svg"]))
        if r.boxes:
            bs = list(range(len(r.boxes)))
            r.show(bs, [[1, 0, 0, 1, 0, 0]] * len(bs), "eps")
        return r.ev
    finally:
        r.close()


def run(ctx):
    logging.getLogger("pyx").setLevel(logging.CRITICAL)
    traces = []
    res = ctx.model_check("TextMC", constants=dict(MaxLen=ctx.n(4, 5)), invariants=["Owned", "Emit"], label="all short histories of an engine")
    hists = sorted({tuple(json.loads(p[1:])) for p in res.prints})
    for h in hists:
        traces.append(dict(ev=replay(ctx.rng, h)))
    ctx.note(short_histories=len(hists))
    for _ in range(ctx.n(400, 5000)):
        traces.append(dict(ev=history(ctx.rng)))
    for t in traces[-2:]:
        ctx.sample(t["ev"][:4])

    def key(t, l, why):
        e = t["ev"][l - 1]
        return "%s-%s%s" % (e["k"], why, "-" + e["failed"].split(":")[0] if e["failed"] not in ("", "tex") else "")
    ctx.validate("TextTrace", traces, key=key, describe=lambda t, l, why: "%s: %s" % (why, json.dumps(t["ev"][l - 1])), chunk=300, heap="4g")
