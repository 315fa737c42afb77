"""F02: fonts and text in written files (spec/FontUse.tla, FontUseMC.tla, FontUseTrace.tla)."""
import io, json, logging, math, re
import fontread, t1build
from checks import f01
from vp import guard

NAMES = ["A", "B", "a", "acute", "f", "i", "fi", "Aacute"]
CHARS = {"A": "A", "B": "B", "a": "a", "acute": "\xb4", "f": "f", "i": "i", "fi": "\ufb01", "Aacute": "\xc1"}


class Font:
    """a synthetic font with its metric, in all the forms needed"""
    def __init__(self, r, name, big=0):
        from pyx.font import t1file, afmfile, T1font, T1builtinfont
        n, o = (lambda i: ("n", i)), (lambda c: (c, 0))
        self.name = name
        self.names = list(NAMES) + ["x%d" % i for i in range(big)]
        self.widths = [r.randint(200, 900) for g in self.names]
        self.widths[self.names.index("Aacute")] = self.widths[0]
        sb = [r.randint(-40, 60) for g in self.names]
        sb[self.names.index("Aacute")] = sb[0]
        subrs = [list(s) for s in [[n(3), n(0), o("callothersubr"), o("pop"), o("pop"), o("setcurrentpoint"), o("return")], [n(0), n(1), o("callothersubr"), o("return")],
                 [n(0), n(2), o("callothersubr"), o("return")], [o("return")]]] + [[n(i), n(7), o("rlineto"), o("return")] for i in range(4, 9)] + [[n(5), o("callsubr"), n(9), o("hlineto"), o("return")]]
        glyphs, self.contours = {}, []
        for k, g in enumerate(self.names):
            if g == "Aacute":
                a = self.names.index("acute")
                ax, ay = 130, 210
                glyphs[g] = [n(sb[k]), n(self.widths[k]), o("hsbw"), n(sb[a]), n(ax), n(ay), n(65), n(194), o("seac")]
                self.contours.append([[sb[0] + 10, 10], [sb[k] + ax + 10, ay + 10 * (a + 1)]])
            else:
                s = 4 + k % 6
                glyphs[g] = [n(sb[k]), n(self.widths[k]), o("hsbw"), n(10), n(10 * (k + 1)), o("rmoveto"), n(30 + k), o("hlineto"), n(s), o("callsubr"), n(-20), o("vlineto"), o("closepath"), o("endchar")]
                self.contours.append([[sb[k] + 10, 10 * (k + 1)]])
        lay = t1build.Layout(r)
        lay.encoding = "custom"
        self.owncodes = sorted(r.sample(range(33, 255), len(NAMES)) if not big else range(33, 33 + len(NAMES)))
        self.own = dict(zip(self.owncodes, r.sample(NAMES, len(NAMES))))
        self.raw = t1build.build(subrs, glyphs, lay, name=name, encoding=self.own)
        self.parsed = t1build.parse(self.raw)
        self.lows = [r.randint(-300, 0) for g in self.names]
        self.highs = [r.randint(10, 900) for g in self.names]
        self.kerns = [["A", "B", -80], ["B", "a", 31], ["a", "A", -55], ["Aacute", "B", 20], ["fi", "fi", 17], ["i", "A", -9]]
        self.ligs = [["f", "i", "fi"], ["f", "f", "B"], ["fi", "f", "A"]]
        afm = ["StartFontMetrics 4.1", "Comment made up", "FontName %s" % name, "FullName %s" % name, "Weight Medium", "ItalicAngle 0", "IsFixedPitch false", "FontBBox -100 -300 1000 900",
               "CapHeight 700", "XHeight 450", "Ascender 750", "Descender -250", "StartCharMetrics %d" % len(self.names)]
        codes = {v: k for k, v in self.own.items()}
        for k, g in enumerate(self.names):
            afm.append("C %d ; WX %d ; N %s ; B 0 %d %d %d ;%s" % (codes.get(g, -1), self.widths[k], g, self.lows[k], self.widths[k], self.highs[k],
                                                              "".join(" L %s %s ;" % (b, c) for a, b, c in self.ligs if a == g)))
        afm += ["EndCharMetrics", "StartKernData", "StartKernPairs %d" % len(self.kerns)] + ["KPX %s %s %d" % tuple(k) for k in self.kerns] + ["EndKernPairs", "EndKernData", "EndFontMetrics"]
        metric = lambda: afmfile.AFMfile(io.StringIO("\n".join(afm) + "\n"))
        load = lambda: t1file.T1File.from_PF_bytes(self.raw)
        t = load()
        m = metric()
        self.fonts = {"metric": [T1font(t, m), T1font(t, m), T1font(load(), metric())], "plain": [T1font(t), T1font(load())], "builtin": [T1builtinfont(name + "Std", m)]}

    def spec(self):
        return {k: getattr(self, k) for k in ("name", "names", "widths", "kerns", "ligs", "contours", "lows", "highs")}


def text(r, fonts, i, kind, named, word, codes, **kw):
    f = fonts[i]
    t = dict(font=i + 1, named=named, glyphs=list(word), codes=list(codes), own=list(f.own.values()), owncodes=list(f.own), size=r.choice([10, 12, 7]), x=r.randint(0, 300) * 1000, y=r.randint(-50, 300) * 1000,
             kern=False, lig=False, spaced=0, slant=0, kind=kind, fname=f.name + ("Std" if kind == "builtin" else ""), which=r.randrange(len(f.fonts[kind])))
    t.update(kw)
    if not named and kind == "metric":
        t["spaced"] = 0
    return t


def place(c, r, fonts, texts):
    """onto a canvas, some inside of further canvases"""
    from pyx import canvas, color, style, trafo, unit, path
    from pyx.font import afmfile
    for t in texts:
        d = c
        for _ in range(r.choice([0, 0, 1, 2])):
            d2 = canvas.canvas([trafo.translate(1, 1)] if r.random() < 0.5 else [])
            d.insert(d2, [color.rgb.red] if r.random() < 0.3 else [])
            d = d2
        if r.random() < 0.3:
            d.stroke(path.line(0, 0, 1, 1))
        d.insert(item(fonts, t))


class TeXFont:
    """what a font of TeX is to a text of TeX"""
    name = "verif"
    getwidth_pt = getheight_pt = getdepth_pt = lambda self, c: 1.0

    def getMAPline(self, fontmap):
        return fontmap[self.name]


def mapline(font, t):
    from pyx.dvi import mapfile
    m = mapfile.MAPline('verif Verif "%s SlantFont" <verif.pfb' % (t["slant"] / 1000) if t["slant"] else "verif Verif <verif.pfb")
    m._font = font
    m._encoding = None
    return m


def item(fonts, t):
    f = fonts[t["font"] - 1].fonts[t["kind"]][t["which"]]
    kw = dict(kerning=t["kern"], ligatures=t["lig"], spaced_pt=t["spaced"] / 1000)
    if t["slant"]:
        kw["slant"] = t["slant"] / 1000
    if not t["named"] and t["kind"] == "metric":
        # fonts with metrics shown by codes are those of texts from TeX
        from pyx.dvi import texfont
        return texfont.TeXtext_pt(TeXFont(), t["x"] / 1000, t["y"] / 1000, list(t["codes"]), t["size"], fontmap=dict(verif=mapline(f, t)))
    if not t["named"]:
        return f.text_pt(t["x"] / 1000, t["y"] / 1000, list(t["codes"]), t["size"], decoding=None, **kw)
    if all(g in CHARS for g in t["glyphs"]):
        return f.text_pt(t["x"] / 1000, t["y"] / 1000, "".join(CHARS[g] for g in t["glyphs"]), t["size"], **kw)
    return f.text_pt(t["x"] / 1000, t["y"] / 1000, list(range(len(t["glyphs"]))), t["size"], decoding=dict(enumerate(t["glyphs"])), **kw)


def pre(kw):
    return {"write_" + k: v for k, v in kw.items()}


def write(r, fonts, pages, fmt, kw):
    from pyx import canvas, document
    cs = []
    for texts in pages:
        c = canvas.canvas()
        place(c, r, fonts, texts)
        cs.append(c)
    b = io.BytesIO()
    if fmt == "eps":
        cs[0].writeEPSfile(b, **pre(kw))
    elif fmt == "svg":
        cs[0].writeSVGfile(b, **pre(kw))
    else:
        d = document.document([document.page(c, paperformat=document.paperformat.A4, centered=0, margin=0) for c in cs])
        (d.writePSfile if fmt == "ps" else d.writePDFfile)(b, **kw)
    return b.getvalue()


def starts(data, fmt):
    """where the contours of the fills begin"""
    import paints
    return [[p[1][0] for p in e["d"] if p[0] == "m"] for e in paints.READ[fmt](data) if e["op"] == "fill"]


def k1000(v):
    return int(round(1000 * v))


def document_trace(r, fonts, pages, fmt, kw):
    texts = [t for p in pages for t in p]
    byname = {f.name + x: f for f in fonts for x in ("", "Std")}
    evs = []
    o = guard(write, r, fonts, pages, fmt, kw, seconds=60)

    def refused(why):
        evs.append(dict(k="show", fmt=fmt, failed=why[:200], text=texts[0]))
    if not o.ok:
        refused(str(o.exc))
    else:
        def read():
            wd = lambda n, g: byname[n].widths[byname[n].names.index(g)] if g in byname[n].names else 0
            if fmt in ("eps", "ps"):
                return fontread.ps(o.value, wd)[0]
            if fmt == "pdf":
                return fontread.pdf(o.value)[0]

            def nm(fam, d):
                f = byname[fam]
                if len(d) == 1:
                    return next((g for g, c in CHARS.items() if c == d), "?")
                st = segments(d)
                for g, c in zip(f.names, f.contours):
                    if len(c) == len(st) and all(abs(p[0] - q[0]) < 0.01 and abs(p[1] - q[1]) < 0.01 for p, q in zip(c, st)):
                        return g
                return "?"
            return fontread.svg(o.value, nm, wd)[0]
        q = guard(read)
        if not q.ok:
            refused("reading: " + str(q.exc))
        elif len(q.value) != len(texts):
            refused("%d texts shown instead of %d" % (len(q.value), len(texts)))
        else:
            for t, g in zip(texts, q.value):
                f = fonts[t["font"] - 1]
                evs.append(dict(k="show", fmt=fmt, failed="", text=t, font=g["font"], names=g["names"], xs=[k1000(x) for x in g["xs"]], y=k1000(g["y"]), size=k1000(g["size"]), slant=k1000(g["slant"]),
                                builtin=t["kind"] == "builtin" or fmt == "svg", intact=fontread.intact(g["emb"], f.parsed) if g["emb"] else [], widths=g["widths"]))
    return dict(fonts=[f.spec() for f in fonts], ev=evs)


def segments(d):
    """where the contours of SVG path data begin, leaving out those without pieces"""
    res, cur = [], None
    toks = re.findall(r"[A-Za-z]|-?[\d.]+(?:e-?\d+)?", d)
    i, pos, cmd, first = 0, (0, 0), "", (0, 0)
    while i < len(toks):
        if toks[i].isalpha():
            cmd = toks[i]
            i += 1
            if cmd in "zZ":
                pos = first
                cur = None
                continue
        n = {"m": 2, "l": 2, "h": 1, "v": 1, "c": 6}[cmd.lower()]
        v = [float(x) for x in toks[i:i + n]]
        i += n
        rel = cmd.islower()
        if cmd in "hH":
            new = (v[0] + (pos[0] if rel else 0), pos[1])
        elif cmd in "vV":
            new = (pos[0], v[0] + (pos[1] if rel else 0))
        else:
            new = (v[-2] + (pos[0] if rel else 0), v[-1] + (pos[1] if rel else 0))
        if cmd in "mM":
            cur, first = None, new
            cmd = "l" if rel else "L"
        elif cur is None:
            cur = pos
            res.append(pos)
        pos = new
    return res


def path_trace(r, fonts, texts, fmt):
    evs = []
    for t in texts:
        def go():
            if fmt == "textpath":
                return [[c[0] for c in f01.contours(item(fonts, t).textpath())]]
            b = io.BytesIO()
            from pyx import canvas
            c = canvas.canvas()
            c.insert(item(fonts, t))
            if fmt == "svg":
                c.writeSVGfile(b, write_textaspath=True)
            elif fmt == "eps":
                c.writeEPSfile(b, write_textaspath=True)
            else:
                c.writePDFfile(b, write_textaspath=True, write_compress=False)
            import paints
            res = []
            for e in paints.READ[fmt](b.getvalue()):
                if e["op"] == "fill":
                    for p, q in zip(e["d"], e["d"][1:]):
                        if p[0] == "m" and q[0] in "lc":
                            res.append(p[1][0])
                elif e["op"] == "text":
                    raise ValueError("a text is shown")
            return [res]
        o = guard(go)
        e = dict(k="path", fmt=fmt, failed="" if o.ok else str(o.exc)[:200], text=t, starts=[])
        if o.ok:
            e["starts"] = [[k1000(x) for x in p] for p in o.value[0]]
        evs.append(e)
        if fmt == "textpath" and t["kind"] == "metric" and t["named"]:
            o = guard(lambda: item(fonts, t).bbox())
            evs.append(dict(k="box", fmt="", failed="" if o.ok else str(o.exc)[:200], text=t, box=[k1000(getattr(o.value, a)) for a in ("llx_pt", "lly_pt", "urx_pt", "ury_pt")] if o.ok else []))
    return dict(fonts=[f.spec() for f in fonts], ev=evs)


def some(r, fonts, kinds=("metric", "metric", "plain", "builtin"), slants=(0, 0, 0, 167, -250), big=False):
    i = r.randrange(len(fonts))
    f = fonts[i]
    kind = r.choice(kinds)
    named = r.random() < 0.7 or kind == "builtin"
    if big and len(f.names) > 100:
        return text(r, fonts, i, "metric", True, r.sample(f.names, r.choice([40, 90])), [])
    word = [r.choice(NAMES) for _ in range(r.choice([1, 2, 3, 5, 8]))]
    codes = [r.choice(f.owncodes) for _ in range(r.choice([1, 2, 4]))]
    kern = named and kind != "plain" and r.random() < 0.5
    return text(r, fonts, i, kind, named, word if named else [], [] if named else codes, kern=kern, lig=named and kind != "plain" and r.random() < 0.4,
                spaced=r.choice([0, 0, 0, 500, -250]), slant=r.choice(slants))


def run(ctx):
    logging.disable(logging.CRITICAL)
    r = ctx.rng
    res = ctx.model_check("FontUseMC", raw=dict(Words="<- WordSet", Codes="<- CodeSet"), constants=dict(N=ctx.n(2, 3), Cap=3, Fonts={"F", "G"}), invariants=["Faithful", "OneCode", "Closed", "Emit"],
                          label="encodings shared and extended by texts", heap="8g")
    ctx.model_check("FontUseMC", raw=dict(Words="<- WordSet", Codes="<- CodeSet"), constants=dict(N=ctx.n(4, 5), Cap=4, Fonts={"F"}), invariants=["Faithful", "OneCode", "Closed"],
                    label="the same, longer histories for one font", heap="8g")
    hists = [json.loads(p[1:]) for p in res.prints]
    r.shuffle(hists)
    fonts = [Font(r, "VerifF"), Font(r, "VerifG")]
    owncode = [{v: k for k, v in f.own.items()} for f in fonts]
    own = {1: "B", 2: "A", 3: "Aacute", 4: "a"}
    traces = []
    for h in hists[:ctx.n(350, 6000)]:
        pages = [[], []]
        for e in h:
            i = "FG".index(e["font"])
            pages[e["page"] - 1].append(text(r, fonts, i, r.choice(["metric", "plain"]), e["named"], e["word"], [owncode[i][own[c]] for c in e["codes"]]))
        pages = [p for p in pages if p]
        fmt = r.choice(["ps", "pdf"] + (["eps", "svg"] if len(pages) == 1 else []))
        traces.append(document_trace(r, fonts, pages, fmt, options(r, fmt)))
    big = [fonts[0], Font(r, "VerifBig", 400)]
    for i in range(ctx.n(120, 2000)):
        fmt = r.choice(["ps", "pdf", "eps", "svg"])
        pages = [[some(r, fonts) for _ in range(r.choice([1, 2, 4]))] for _ in range(1 if fmt in ("eps", "svg") else r.choice([1, 2, 3]))]
        traces.append(document_trace(r, fonts, pages, fmt, options(r, fmt)))
    for i in range(ctx.n(8, 60)):
        fmt = r.choice(["ps", "pdf", "eps"])
        pages = [[some(r, big, big=True) for _ in range(6)] for _ in range(1 if fmt == "eps" else 2)]
        traces.append(document_trace(r, big, pages, fmt, options(r, fmt)))
    for i in range(ctx.n(60, 800)):
        traces.append(path_trace(r, fonts, [some(r, fonts, kinds=("metric", "plain")) for _ in range(4)], r.choice(["textpath", "textpath", "svg", "eps", "pdf"])))

    def key(t, l, why):
        e = t["ev"][l - 1]
        return "font:%s:%s:%s%s:%s" % (e["k"], why, e["fmt"], ":slant" if e["text"]["slant"] else "", e["failed"][:60])

    def describe(t, l, why):
        return "%s: %s" % (why, json.dumps(t["ev"][l - 1])[:900])
    ctx.validate("FontUseTrace", traces, key=key, describe=describe, heap="12g", chunk=200)
    ctx.sample({"text": traces[-1]["ev"][0]})


def options(r, fmt):
    kw = dict(textaspath=False) if fmt == "svg" else {}
    if fmt != "svg" and r.random() < 0.25:
        kw["stripfonts"] = False
    if fmt == "pdf" and r.random() < 0.5:
        kw["compress"] = False
    return kw
