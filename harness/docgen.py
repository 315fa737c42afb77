"""Documents built from an abstract description (lists of items per page), with the resource uses each page should show.

item: dict(kind=..., ...):
  image i | pattern i | mesh i | gs which value | text f s opts | tex i | plain | field what name | group attrs items"""
import glob, hashlib, io, os, zlib

FONTS = ["utmr8a", "uhvb8a", "putb8a"]
FONTNAMES = ["NimbusRomNo9L-Regu", "NimbusSanL-Bold", "Utopia-Bold"]
STANDARD = {65: "A", 66: "B", 40: "parenleft", 92: "backslash", 97: "a"}       # of the built-in encoding
GLYPHS = {"(": "parenleft", ")": "parenright", "\\": "backslash", "\u00e9": "eacute", "%": "percent"}
TYPE1 = "/usr/share/texlive/texmf-dist/fonts"


def mark(i):
    """the colour which identifies thing i"""
    return ((i % 10) / 10.0 + 0.05, (i // 10 % 10) / 10.0 + 0.05, 0.25)


def unmark(r, g):
    return int(round((r - 0.05) * 10)) + 10 * int(round((g - 0.05) * 10))


def px(mode, w, h, seed):
    n = len(mode) if mode != "P" else 1
    return bytes(((seed * 37 + k * (11 + seed)) % (4 if mode == "P" else 256)) for k in range(n * w * h))


def image_specs():
    """(mode, w, h, data, palette, compress): neighbours share everything but one aspect"""
    pal = lambda k: bytes((k * 50 + j * 20) % 256 for j in range(12))
    rgb = px("RGB", 2, 3, 1)
    with_alpha = lambda a: b"".join(rgb[3 * i:3 * i + 3] + bytes([a + i]) for i in range(6))
    return [("RGB", 2, 3, rgb, None, "Flate"),
            ("RGB", 3, 2, rgb, None, "Flate"),               # other shape
            ("RGBA", 2, 3, with_alpha(10), None, "Flate"),   # same colours, with alpha
            ("RGBA", 2, 3, with_alpha(90), None, "Flate"),   # other alpha
            ("L", 6, 3, rgb, None, "Flate"),                 # other mode
            ("P", 3, 2, px("P", 3, 2, 3), pal(1), "Flate"),
            ("P", 3, 2, px("P", 3, 2, 3), pal(2), "Flate"),  # other palette
            ("RGB", 2, 3, rgb, None, None),                  # not compressed
            ("CMYK", 1, 2, px("CMYK", 1, 2, 5), None, "Flate"),
            ("LA", 2, 2, px("LA", 2, 2, 6), None, None),
            ("RGB", 2, 3, px("RGB", 2, 3, 9), None, "Flate"),
            ("AL", 2, 2, px("AL", 2, 2, 7), None, "Flate")]


NIMAGES = 12
NPATTERNS = 7
NMESHES = 3


class Pool:
    """fresh PyX objects for one document (or shared by several)"""

    def __init__(self):
        self.images, self.patterns, self.meshes, self.tex, self.fonts = {}, {}, {}, {}, {}

    def image(self, i):
        from pyx import bitmap
        mode, w, h, data, pal, compress = image_specs()[i]
        if i not in self.images:
            self.images[i] = bitmap.image(w, h, mode, data, palette=bitmap.palette("RGB", pal) if pal else None)
        return self.images[i], compress

    def pattern(self, i):
        from pyx import color, path, pattern, unit, trafo
        if i not in self.patterns:
            kw = {}
            if i % 3 == 1:
                kw = dict(xstep=5 * unit.t_pt, ystep=6 * unit.t_pt)
            elif i % 3 == 2:
                kw = dict(trafo=trafo.rotate(30))
            p = pattern.pattern(**kw)
            p.fill(path.rect_pt(0, 0, 3 + i, 4), [color.rgb(*mark(i))])
            if i in (2, 4):
                p.insert(self.bitmap(dict(i=0 if i == 2 else 10), 0, 0))
            if i == 3:
                p.insert(self.mesh(1, 0, 0))
            if i == 6:
                p.insert(self.font(2).text_pt(0, 0, "gA", 5))
            if i == 5:
                p.stroke(path.line_pt(0, 0, 2, 2), [color.transparency(0.75)])
            self.patterns[i] = p
        return self.patterns[i]

    def bitmap(self, it, x, y):
        from pyx import bitmap
        im, compress = self.image(it["i"])
        kw = {}
        if it.get("store"):
            kw = dict(PSstoreimage=1)
            if it["store"] == 2:
                kw["PSmaxstrlen"] = 7
        if it.get("hexa"):
            kw["PSbinexpand"] = 2
        return bitmap.bitmap_pt(x, y, im, width_pt=20.0, height_pt=10.0, compressmode=compress, **kw)

    def mesh(self, i, x, y):
        from pyx import color, mesh
        n = lambda a, b, k: mesh.node_pt((x + a, y + b), color.rgb(*[min(1, v + 0.01 * k) for v in mark(50 + i)]))
        return mesh.mesh([mesh.element((n(0, 0, 0), n(10, 0, 1), n(0, 10, 2)))])

    def font(self, f, metric=True):
        from pyx.font import t1file, afmfile, T1font
        if (f, metric) not in self.fonts:
            find = lambda ext: sorted(glob.glob("%s/*/*/*/%s.%s" % (TYPE1, FONTS[f], ext)))[0]
            with open(find("afm"), encoding="ascii", errors="surrogateescape") as a:
                m = afmfile.AFMfile(a)
            t = t1file.T1File.from_PFB_filename(find("pfb"))
            self.fonts[f, metric] = T1font(t, m if metric else None)
        return self.fonts[f, metric]


TEX = [r"A quick $x^2$", r"plain", r"$\int_0^\infty\alpha$", r"fj\'e \ss", r"{\bf bold}", r"$\sqrt{2}$", r"A quick $x^2$"]


def texts():
    from pyx import text
    e = text.TexEngine()
    res = [e.text(0, 0, t) for t in TEX]
    return res


_tex = []


def place(c, items, pool, n0=0):
    from pyx import canvas, color, deco, path, style, trafo, unit
    n = n0
    for it in items:
        x, y = 30.0 * (n % 8), 25.0 * (n // 8)
        n += 1
        k = it["kind"]
        if k == "image":
            c.insert(pool.bitmap(it, x, y))
        elif k == "pattern":
            c.fill(path.rect_pt(x, y, 20, 10), [pool.pattern(it["i"])])
        elif k == "bare":
            c.fill(path.rect_pt(x, y, 20, 10))
        elif k == "mesh":
            c.insert(pool.mesh(it["i"], x, y))
        elif k == "gs":
            t = color.transparency(1 - it["v"])
            if it["which"] == "s":
                c.draw(path.line_pt(x, y, x + 5, y + 5), [deco.stroked([t])])
            elif it["which"] == "f":
                c.draw(path.rect_pt(x, y, 5, 5), [deco.filled([t])])
            else:
                d = canvas.canvas([t])
                d.fill(path.rect_pt(x, y, 5, 5))
                c.insert(d)
        elif k == "text":
            kw = dict(it.get("opts", {}))
            c.insert(pool.font(it["f"], "decoding" not in kw).text_pt(x, y, it["s"], 10, **kw))
        elif k == "tex":
            if not _tex:
                _tex.extend(texts())
            c.insert(_tex[it["i"]], [trafo.translate_pt(x, y)])
        elif k == "eps":
            from pyx import epsfile
            c.insert(epsfile.epsfile(x * unit.t_pt, y * unit.t_pt, it["name"], **it.get("opts", {})))
        elif k == "svg":
            from pyx import svgfile
            c.insert(svgfile.svgfile(x * unit.t_pt, y * unit.t_pt, it["name"]))
        elif k == "plain":
            p = path.path(path.moveto_pt(x, y), path.lineto_pt(x + 10, y), path.curveto_pt(x, y + 1, x, y + 2, x + 5, y + 5), path.closepath())
            [lambda: c.stroke(p, [style.linewidth.thin, style.linestyle.dashed, color.cmyk(0.1, 0.2, 0.3, 0)]),
             lambda: c.fill(p, [color.gray(0.3)]),
             lambda: c.draw(p, [deco.stroked([color.rgb.red]), deco.filled([color.hsb(0.2, 0.3, 0.4)])]),
             lambda: c.stroke(path.circle_pt(x, y, 5), [deco.earrow.normal, deco.filled])][it.get("v", 0) % 4]()
        elif k == "field":
            from pyx import pdfextra
            u = lambda v: v * unit.t_pt
            w = it["what"]
            if w == "text":
                f = pdfextra.textfield(u(x), u(y), u(20), u(10), it["name"], defaultvalue=it.get("value", ""))
            elif w == "check":
                f = pdfextra.checkbox(u(x), u(y), it["name"], defaulton=1)
            elif w == "radio":
                f = pdfextra.radiobuttons([(u(x), u(y)), (u(x + 12), u(y))], it["name"], ["a a", "bb"], defaultvalue=[None, "a a", "bb"][len(it["name"]) % 3])
            else:
                f = pdfextra.choicefield(u(x), u(y), u(20), u(10), it["name"], ["one", "two (2)"], defaultvalue=[None, "two (2)"][len(it["name"]) % 2])
            c.insert(f)
        elif k == "group":
            attrs = []
            for a in it["attrs"]:
                if a == "rgb":
                    attrs.append(color.rgb(0.2, 0.3, 0.4))
                elif a == "clip":
                    attrs.append(canvas.clip(path.circle_pt(100, 60, 300)))
                elif a == "trafo":
                    attrs.append(trafo.trafo_pt(((0.5, 0), (0, 0.5)), (x, y)))
                elif a.startswith("pattern"):
                    attrs.append(pool.pattern(int(a[7:])))
                elif a.startswith("op"):
                    attrs.append(color.transparency(1 - int(a[2:]) / 10.0))
                elif a == "lw":
                    attrs.append(style.linewidth.thick)
            d = canvas.canvas(attrs)
            place(d, it["items"], pool, n)
            c.insert(d)
    return c


def uses(items, fmt="pdf"):
    """the sequence of expected resource uses (op, what) in drawing order"""
    res = []
    for it in items:
        k = it["kind"]
        if k == "image":
            res.append(["Do", "image%d" % it["i"]])
        elif k == "pattern":
            res.append(["scn", "pattern%d" % it["i"]])
        elif k == "mesh":
            res.append(["sh", "mesh%d" % it["i"]])
        elif k == "gs":
            v = "%d" % round(1000 * it["v"])
            res.append(["gs", {"s": "s%s" % v, "f": "f%s" % v, "b": "s%sf%s" % (v, v)}[it["which"]]])
        elif k == "group":
            if it["items"]:
                res.extend(["scn", a] for a in it["attrs"] if a.startswith("pattern"))
            res.extend(uses(it["items"], fmt))
    return res


def shown(items):
    """[font, size, glyph names] of the T1 texts in drawing order"""
    res = []
    for it in items:
        if it["kind"] == "text":
            s, o = it["s"], it.get("opts", {})
            g = [STANDARD[c] for c in s] if "decoding" in o else [GLYPHS.get(c, c) for c in s]
            if o.get("ligatures") and it["f"] == 2:          # the only font whose metric file has ligatures
                i = 0
                while i < len(g) - 1:
                    if g[i:i + 2] == ["f", "i"]:
                        g[i:i + 2] = ["fi"]
                    i += 1
            res.append([FONTNAMES[it["f"]], "10"] + g)
        elif it["kind"] == "group":
            res += shown(it["items"])
    return res


def epsfiles(items):
    return [n for it in items for n in ([it["name"]] if it["kind"] == "eps" else epsfiles(it["items"]) if it["kind"] == "group" else [])]


def pattern_uses(i):
    return [["Do", "image%d" % {2: 0, 4: 10}[i]]] if i in (2, 4) else [["sh", "mesh1"]] if i == 3 else [["gs", "s250f250"]] if i == 5 else []


def fields(items):
    res = []
    for it in items:
        if it["kind"] == "field":
            res += [it["name"]] * (2 if it["what"] == "radio" else 1)
        elif it["kind"] == "group":
            res += fields(it["items"])
    return res


def formfields(items):
    res = []
    for it in items:
        if it["kind"] == "field":
            res.append(it["name"])
        elif it["kind"] == "group":
            res += formfields(it["items"])
    return res


class Gen:
    def __init__(self, r, fmt, files=()):
        self.r, self.fmt, self.nf, self.files = r, fmt, 0, list(files)

    def pat(self):
        i = self.r.randrange(NPATTERNS)
        if self.fmt == "svg":
            i = self.r.choice([0, 2, 5, 6])
        if self.fmt in ("ps", "eps") and i == 5:
            i = 0
        return i

    def item(self, depth=0):
        r = self.r
        k = r.choice(["image"] * 4 + ["pattern"] * 3 + ["mesh", "gs", "gs", "text", "text", "tex", "plain", "group", "group"] + (["field"] * 2 if self.fmt == "pdf" else []) + (["svg" if self.fmt == "svg" else "eps"] if self.files else []))
        if k == "image":
            it = dict(kind=k, i=r.randrange(NIMAGES))
            if self.fmt == "svg" and it["i"] in (7, 8, 9, 11):    # not compressed or no PNG
                it["i"] = 0
            if self.fmt in ("ps", "eps"):
                it["store"] = r.choice([0, 0, 1, 2])
                it["hexa"] = r.choice([0, 0, 1])
            return [it]
        if k == "pattern":
            return [dict(kind=k, i=self.pat())]
        if k == "mesh":
            if self.fmt == "svg":
                return [dict(kind="plain", v=2)]
            return [dict(kind=k, i=r.randrange(NMESHES))]
        if k == "gs":
            if self.fmt in ("ps", "eps"):
                return [dict(kind="plain")]
            return [dict(kind=k, which=r.choice("sfb"), v=r.choice([0.25, 0.5, 0.75]))]
        if k == "text":
            opts = r.choice([{}, {}, dict(kerning=True), dict(spaced_pt=2), dict(kerning=True, spaced_pt=1), dict(slant=0.2), dict(ligatures=True)])
            s = "".join(r.choice("AVfiTobar()\\é%") for _ in range(r.randint(1, 6)))
            if r.random() < 0.15:
                opts, s = dict(decoding=None), [r.choice([65, 66, 40, 92, 97]) for _ in range(3)]
            return [dict(kind=k, f=r.randrange(len(FONTS)), s=s, opts=opts)]
        if k == "tex":
            return [dict(kind=k, i=r.randrange(len(TEX)))]
        if k == "svg":
            return [dict(kind=k, name=r.choice(self.files))]
        if k == "eps":
            return [dict(kind=k, name=r.choice(self.files), opts=r.choice([{}, dict(clip=0), dict(scale=0.5), dict(align="tr")]))]
        if k == "plain":
            return [dict(kind=k, v=r.randrange(4))]
        if k == "field":
            self.nf += 1
            return [dict(kind=k, what=r.choice(["text", "check", "radio", "choice"]), name="field%d" % self.nf + r.choice(["", "", " (", "\\ x", "\u00e9"]), value=r.choice(["", "hello", "two\nlines", "a)b", "\\"]))]
        if depth > 2:
            return [dict(kind="plain", v=1)]
        return [dict(kind="group", attrs=sorted(set(r.choice(["rgb", "clip", "trafo", "lw"] + (["op0", "op5"] if self.fmt == "svg" else [])) for _ in range(r.randint(0, 2)))) +
                     (["pattern%d" % self.pat()] if r.random() < 0.2 and self.fmt != "svg" else []),
                     items=[x for _ in range(r.randint(0, 4)) for x in self.item(depth + 1)])]

    def page(self):
        return [x for _ in range(self.r.randint(0, 6)) for x in self.item()]


def build(pages, pool=None, paper=None):
    from pyx import canvas, document
    pool = pool or Pool()
    d = document.document()
    for i, p in enumerate(pages):
        c = place(canvas.canvas(), p, pool)
        kw = {}
        if paper and paper[i % len(paper)]:
            kw["paperformat"] = getattr(document.paperformat, paper[i % len(paper)])
        d.append(document.page(c, **kw))
    return d, pool
