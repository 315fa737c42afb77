"""Scenes (canvas trees) for the paint properties: generation, building with PyX, recording of the written files.

Units as in spec/Paint.tla: coordinates 1/10 pt, line widths quarters of the default width, dashes and miter 1/1000,
colours 1/100 (hue: sixths)."""
import io, re
import xml.etree.ElementTree as ET
import psread, pdfread
from vp import guard

BAD = 99991
DEFLW = 0.02 * 72 / 2.54


def q(x, scale, tol=2e-3):
    try:
        y = float(x) * scale
    except (TypeError, ValueError):
        return BAD
    r = round(y)
    if abs(y - r) > tol * scale or abs(r) > 90000:
        return BAD
    return int(r)


# ------------------------------------------------------------------------------------------ building
class Builder:
    def __init__(self, lwunit=None):
        from pyx import canvas, path, style, color, deco, trafo, unit, attr
        self.m = dict(canvas=canvas, path=path, style=style, color=color, deco=deco, trafo=trafo, unit=unit, attr=attr)
        self.memo = {}
        self.lwunit = lwunit if lwunit is not None else 0.25 * 0.02 * unit.w_cm

    def path(self, p):
        path = self.m["path"]
        items = []
        for e in p:
            c = [x / 10 for pt in e["a"] for x in pt]
            items.append({"m": path.moveto_pt, "l": path.lineto_pt, "c": path.curveto_pt, "z": path.closepath}[e["o"]](*c))
        return path.path(*items)

    def attr(self, a):
        m, k = self.m, a["k"]
        st = m["style"]
        if k == "lw":
            return st.linewidth(a["v"] * self.lwunit)
        if k == "cap":
            return st.linecap(a["v"])
        if k == "join":
            return st.linejoin(a["v"])
        if k == "miter":
            return st.miterlimit(a["v"] / 1000)
        if k == "dash":
            return st.dash(list(a["v"]), a["off"], a["rel"])
        if k == "linestyle":
            return st.linestyle(st.linecap(a["cap"]), st.dash(list(a["v"]), a["off"], a["rel"]))
        if k == "rule":
            return st.fillrule(a["v"])
        if k == "color":
            c = a["c"]
            if a["sp"] == "hsb":
                return m["color"].hsb(c[0] / 6, c[1] / 100, c[2] / 100)
            return getattr(m["color"], a["sp"])(*[x / 100 for x in c])
        if k == "opacity":
            return m["color"].transparency(1 - a["v"] / 100)
        if k == "trafo":
            t = a["m"]
            return m["trafo"].trafo_pt(matrix=((t[0], t[2]), (t[1], t[3])), vector=(t[4] / 10, t[5] / 10))
        if k == "clip":
            return m["canvas"].clip(self.path(a["path"]))
        if k == "clear":
            return {"lw": st.linewidth, "cap": st.linecap, "join": st.linejoin, "miter": st.miterlimit, "dash": st.dash,
                    "linestyle": st.linestyle, "rule": st.fillrule, "color": m["color"],
                    "stroked": m["deco"].stroked, "filled": m["deco"].filled}[a["c"]].clear
        if k == "clearall":
            return m["attr"].clear
        if k == "stroked":
            return m["deco"].stroked([self.attr(x) for x in a["v"]]) if a["v"] else m["deco"].stroked
        if k == "filled":
            return m["deco"].filled([self.attr(x) for x in a["v"]]) if a["v"] else m["deco"].filled
        if k == "orn":
            b = self

            class Ornament(m["deco"].deco, m["attr"].attr):
                def decorate(self, dp, texrunner):
                    dp.ornaments.draw(b.path(a["path"]), [b.attr(x) for x in a["v"]])
            return Ornament()
        raise ValueError(k)

    def canvas(self, s):
        if id(s) in self.memo:
            return self.memo[id(s)]
        c = self.m["canvas"].canvas([self.attr(a) for a in s["attrs"]])
        self.memo[id(s)] = c
        for it in s["items"]:
            if it["t"] == "canvas":
                c.insert(self.canvas(it))
            else:
                p = self.path(it["path"])
                attrs = [self.attr(a) for a in it["attrs"]]
                if it["how"] == "stroke":
                    c.stroke(p, attrs[1:])
                elif it["how"] == "fill":
                    c.fill(p, attrs[1:])
                else:
                    c.draw(p, attrs)
        return c


# ------------------------------------------------------------------------------------------ recording
def E(o, a=(), **kw):
    e = {"o": o, "a": list(a)}
    e.update(kw)
    return e


def coords(args):
    return [q(x, 10) for x in args]


def mat(args):
    return [q(x, 1) for x in args[:4]] + [q(x, 10) for x in args[4:6]]


def dash(arr, off):
    return [q(off, 1000, 2e-5)] + [q(x, 1000, 2e-5) for x in arr]


PSOPS = {"gsave": "save", "grestore": "restore", "newpath": "newpath", "moveto": "m", "lineto": "l", "curveto": "c",
         "closepath": "z", "clip": "clip", "fill": "fill", "eofill": "eofill", "stroke": "stroke"}


def ps_events(data):
    f = psread.PSFile(data)
    res = []
    for page in f.pages:
        ev = []
        for op, args in psread.ops(page):
            if op in PSOPS:
                ev.append(E(PSOPS[op], coords(args)))
            elif op == "setlinewidth":
                ev.append(E("lw", [q(args[-1], 4 / DEFLW)]))
            elif op == "setlinecap":
                ev.append(E("cap", [q(args[-1], 1)]))
            elif op == "setlinejoin":
                ev.append(E("join", [q(args[-1], 1)]))
            elif op == "setmiterlimit":
                ev.append(E("miter", [q(args[-1], 1000, 2e-5)]))
            elif op == "setdash":
                ev.append(E("dash", dash(args[0], args[1])))
            elif op == "setgray":
                ev.append(E("color", [q(args[0], 100)], sp="gray"))
            elif op == "setrgbcolor":
                ev.append(E("color", [q(x, 100) for x in args], sp="rgb"))
            elif op == "setcmykcolor":
                ev.append(E("color", [q(x, 100) for x in args], sp="cmyk"))
            elif op == "sethsbcolor":
                ev.append(E("color", [q(args[0], 6), q(args[1], 100), q(args[2], 100)], sp="hsb"))
            elif op == ".setshapealpha":
                ev.append(E("alpha", [q(args[0], 100)] * 2))
            elif op == "concat":
                ev.append(E("concat", mat(args[0])))
            elif op in ("showpage", "def", "save") or (op == "pgsave") or (op == "restore"):
                pass
            else:
                ev.append(E("?" + op))
        ev.append(E("over"))
        res.append(ev)
    return res


PDFOPS = {"q": "save", "Q": "restore", "m": "m", "l": "l", "c": "c", "h": "z", "f": "f", "F": "f", "f*": "f*", "S": "S",
          "B": "B", "B*": "B*", "n": "n", "W": "W", "BT": "BT", "ET": "ET"}
PDFTEXT = ("Tf", "Td", "TD", "Tm", "Tj", "TJ", "Tr", "T*", "Tc", "Tw", "Tz", "TL", "Ts", "'", '"')


def pdf_events(data):
    f = pdfread.PDFFile(data)
    res = []
    for page in f.pages():
        ev = []
        gsdict = f.get((f.get(page.get("Resources")) or {}).get("ExtGState")) or {}
        for op, args in pdfread.ops(f.content(page)):
            if op in ("s", "b", "b*"):
                ev.append(E("z"))
                op = op.upper()
            if op in PDFOPS:
                ev.append(E(PDFOPS[op], coords(args)))
            elif op == "W*":
                ev.append(E("?W*"))
            elif op == "re":
                x, y, w, h = args
                ev += [E("m", coords([x, y])), E("l", coords([x + w, y])), E("l", coords([x + w, y + h])), E("l", coords([x, y + h])), E("z")]
            elif op == "w":
                ev.append(E("lw", [q(args[-1], 4 / DEFLW)]))
            elif op == "J":
                ev.append(E("cap", [q(args[-1], 1)]))
            elif op == "j":
                ev.append(E("join", [q(args[-1], 1)]))
            elif op == "M":
                ev.append(E("miter", [q(args[-1], 1000, 2e-5)]))
            elif op == "d":
                ev.append(E("dash", dash(args[0], args[1])))
            elif op in ("g", "rg", "k", "G", "RG", "K"):
                sp = {"g": "gray", "rg": "rgb", "k": "cmyk"}[op.lower()]
                ev.append(E("scolor" if op.isupper() else "fcolor", [q(x, 100) for x in args], sp=sp))
            elif op == "gs":
                d = f.get(gsdict.get(str(args[0])))
                if not isinstance(d, dict):
                    ev.append(E("?gs"))
                else:
                    ev.append(E("alpha", [q(d["CA"], 100) if "CA" in d else -1, q(d["ca"], 100) if "ca" in d else -1]))
            elif op == "cm":
                ev.append(E("concat", mat(args)))
            elif op in PDFTEXT:
                ev.append(E("text"))
            else:
                ev.append(E("?" + op))
        ev.append(E("over"))
        res.append(ev)
    return res


NUM = re.compile(r"[+-]?(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?")


def svgpath(d):
    """path data with absolute M L H V C Z (what PyX writes); anything else becomes '?'"""
    res, cur = [], (0.0, 0.0)
    for m in re.finditer(r"([A-Za-z])([^A-Za-z]*(?:[eE][+-]?\d[^A-Za-z]*)*)", d or ""):
        c, nums = m.group(1), [float(x) for x in NUM.findall(m.group(2))]
        n = {"M": 2, "L": 2, "C": 6, "H": 1, "V": 1, "Z": 0, "z": 0}.get(c)
        if n is None or (n and (not nums or len(nums) % n)):
            return [E("?" + c)]
        if n == 0:
            res.append(E("z"))
            continue
        first = True
        for i in range(0, len(nums), n):
            a = nums[i:i + n]
            if c == "H":
                a = [a[0], cur[1]]
            elif c == "V":
                a = [cur[0], a[0]]
            cur = (a[-2], a[-1])
            res.append(E({"M": "m" if first else "l", "C": "c"}.get(c, "l"), coords(a)))
            first = False
    return res


def svgcolor(v):
    if v is None:
        return []
    v = v.strip()
    names = {"black": [0, 0, 0], "white": [255, 255, 255], "red": [255, 0, 0]}
    if v == "none":
        return [[]]
    if v in names:
        return [names[v]]
    m = re.match(r"#([0-9a-fA-F]{3}|[0-9a-fA-F]{6})$", v)
    if m:
        h = m.group(1)
        if len(h) == 3:
            h = "".join(c * 2 for c in h)
        return [[int(h[i:i + 2], 16) for i in (0, 2, 4)]]
    return [[BAD, BAD, BAD]]


def tag(e):
    return e.tag.split("}")[-1]


def svg_events(data):
    root = ET.fromstring(data)
    ids = {e.get("id"): e for e in root.iter() if e.get("id")}
    ev = []

    def walk(e):
        if tag(e) in ("clipPath", "defs", "symbol", "linearGradient", "pattern"):
            return
        a = e.attrib
        s = dict(o="start", a=[], tag=tag(e))
        t = a.get("transform")
        if t is None:
            s["tr"] = []
        else:
            m = re.match(r"\s*matrix\(([^)]*)\)\s*$", t)
            s["tr"] = [mat([float(x) for x in NUM.findall(m.group(1))])] if m else [[BAD] * 6]
        c = a.get("clip-path")
        if c is None or c == "none":
            s["clip"] = []
        else:
            m = re.match(r"url\(#([^)]*)\)$", c)
            target = ids.get(m.group(1)) if m else None
            if target is None or tag(target) != "clipPath" or len(target) != 1 or target[0].get("clip-rule", "nonzero") != "nonzero":
                s["clip"] = [[E("?clip")]]
            else:
                s["clip"] = [svgpath(target[0].get("d"))]
        s["stroke"], s["fill"] = svgcolor(a.get("stroke")), svgcolor(a.get("fill"))

        def opt(name, f):
            return [f(a[name])] if name in a else []
        s["lw"] = opt("stroke-width", lambda v: q(v, 4 / DEFLW))
        s["cap"] = opt("stroke-linecap", lambda v: {"butt": 0, "round": 1, "square": 2}.get(v, BAD))
        s["join"] = opt("stroke-linejoin", lambda v: {"miter": 0, "round": 1, "bevel": 2}.get(v, BAD))
        s["miter"] = opt("stroke-miterlimit", lambda v: q(v, 1000, 2e-5))
        s["dash"] = opt("stroke-dasharray", lambda v: [] if v == "none" else [q(x, 1000, 2e-5) for x in NUM.findall(v)])
        s["doff"] = opt("stroke-dashoffset", lambda v: q(v, 1000, 2e-5))
        s["rule"] = opt("fill-rule", lambda v: {"nonzero": 0, "evenodd": 1}.get(v, BAD))
        s["op"] = opt("opacity", lambda v: q(v, 100))
        s["sop"] = opt("stroke-opacity", lambda v: q(v, 100))
        s["fop"] = opt("fill-opacity", lambda v: q(v, 100))
        s["d"] = svgpath(a.get("d")) if tag(e) == "path" else []
        ev.append(s)
        for k in e:
            walk(k)
        ev.append(dict(o="end", a=[]))
    walk(root)
    ev.append(E("over"))
    return [ev]


def write(c, fmt, **kw):
    f = io.BytesIO()
    getattr(c, {"ps": "writePSfile", "eps": "writeEPSfile", "pdf": "writePDFfile", "svg": "writeSVGfile"}[fmt])(f, **kw)
    return f.getvalue()


EVENTS = {"ps": ps_events, "pdf": pdf_events, "svg": svg_events}


def scene_path(p):
    return [dict(o=e["o"], a=e["a"]) for e in p]


# ------------------------------------------------------------------------------------------ generation
class Gen:
    def __init__(self, rng, fmt="any", orth=False, rectclip=False):
        self.r, self.orth, self.rectclip = rng, orth, rectclip

    def pt(self):
        return [self.r.randint(-15, 25) * 10, self.r.randint(-15, 25) * 10]

    def path(self):
        r = self.r
        p = []
        for _ in range(r.choice([1, 1, 1, 2])):
            pts = [self.pt()]
            p.append(dict(o="m", a=[pts[0]]))
            for _ in range(r.randint(1, 4)):
                while True:
                    x = self.pt()
                    if x not in pts:
                        break
                if r.random() < 0.7:
                    p.append(dict(o="l", a=[x]))
                elif self.orth:
                    # control points inside the box of the end points: the curve's extent is theirs
                    last = pts[-1]
                    inner = lambda: [last[i] + (x[i] - last[i]) * r.choice([0, 1, 2, 3, 4, 5]) // 5 for i in (0, 1)]
                    p.append(dict(o="c", a=[inner(), inner(), x]))
                else:
                    # control points off the chord, so that this is not a straight line
                    last = pts[-1]
                    dx, dy = x[0] - last[0], x[1] - last[1]
                    p.append(dict(o="c", a=[[last[0] - dy, last[1] + dx], [x[0] - dy, x[1] + dx], x]))
                pts.append(x)
            if len(pts) > 2 and r.random() < 0.4:
                p.append(dict(o="z", a=[]))
        return p

    def rect(self):
        r = self.r
        x, y = self.pt()
        w, h = r.randint(5, 30) * 10, r.randint(5, 30) * 10
        return [dict(o="m", a=[[x, y]]), dict(o="l", a=[[x + w, y]]), dict(o="l", a=[[x + w, y + h]]), dict(o="l", a=[[x, y + h]]), dict(o="z", a=[])]

    def color(self):
        r = self.r
        sp = r.choice(["gray", "rgb", "cmyk", "hsb"])
        n = {"gray": 1, "rgb": 3, "cmyk": 4, "hsb": 3}[sp]
        c = [r.choice([0, 20, 40, 60, 80, 100]) for _ in range(n)]
        if sp == "hsb":
            c[0] = r.randint(0, 5)
        return dict(k="color", sp=sp, c=c)

    def dash(self):
        r = self.r
        n = r.randint(0, 3)
        v = [r.randint(0, 4) for _ in range(n)]
        if n and not any(v):
            v[0] = 2
        return dict(k="dash", v=v, off=r.randint(0, 3), rel=r.random() < 0.6)

    def trafo(self):
        r = self.r
        while True:
            if self.orth:
                s, t = r.choice([1, 1, 2, -1, 3]), r.choice([1, 1, 2, -1])
                m = [s, 0, 0, t] if r.random() < 0.6 else [0, s, t, 0]
            else:
                m = [r.choice([1, 1, 2, 0, -1]), r.choice([0, 0, 1, -1]), r.choice([0, 0, 1, -1]), r.choice([1, 1, 2, 0, -1])]
            if m[0] * m[3] - m[1] * m[2]:
                return dict(k="trafo", m=m + [r.randint(-10, 10) * 10, r.randint(-10, 10) * 10])

    def stroke_attr(self):
        r = self.r
        return r.choice([lambda: dict(k="lw", v=r.choice([1, 2, 4, 6, 8, 12])), lambda: dict(k="cap", v=r.randint(0, 2)),
                         lambda: dict(k="join", v=r.randint(0, 2)), lambda: dict(k="miter", v=r.choice([1000, 2500, 10000])),
                         self.dash, lambda: dict(self.dash(), k="linestyle", cap=r.randint(0, 2)), self.color,
                         lambda: dict(k="opacity", v=r.choice([20, 40, 60, 80, 100]))])()

    def fill_attr(self):
        r = self.r
        return r.choice([self.color, self.color, lambda: dict(k="rule", v=r.randint(0, 1)),
                         lambda: dict(k="opacity", v=r.choice([20, 40, 60, 80, 100]))])()

    def clear(self):
        r = self.r
        return dict(k="clear", c=r.choice(["lw", "cap", "join", "miter", "dash", "linestyle", "rule", "color"]))

    def style_attr(self):
        x = self.r.random()
        return self.stroke_attr() if x < 0.6 else self.fill_attr() if x < 0.93 else self.clear()

    def some(self, f, n):
        return [f() for _ in range(self.r.randint(0, n))]

    def draw(self):
        r = self.r
        attrs = self.some(self.style_attr, 3)
        if r.random() < 0.3:
            attrs.append(self.trafo())
        stroked = dict(k="stroked", v=self.some(self.stroke_attr, 2) if r.random() < 0.6 else [])
        filled = dict(k="filled", v=self.some(self.fill_attr, 2) if r.random() < 0.6 else [])
        how = r.choice(["stroke", "fill", "draw"])
        if how == "stroke":
            if r.random() < 0.4:
                attrs.append(filled)
            if r.random() < 0.2:
                attrs.append(stroked)
            if r.random() < 0.05:
                attrs.append(dict(k="clear", c="stroked"))
            r.shuffle(attrs)
            attrs.insert(0, dict(k="stroked", v=[]))
        elif how == "fill":
            if r.random() < 0.4:
                attrs.append(stroked)
            if r.random() < 0.05:
                attrs.append(dict(k="clear", c="filled"))
            r.shuffle(attrs)
            attrs.insert(0, dict(k="filled", v=[]))
        else:
            if r.random() < 0.7:
                attrs.append(stroked)
            if r.random() < 0.7:
                attrs.append(filled)
            if r.random() < 0.05:
                attrs.append(dict(k="clearall"))
            r.shuffle(attrs)
        if r.random() < 0.25:
            v = self.some(self.style_attr, 2)
            v.append(dict(k=r.choice(["stroked", "filled"]), v=[]))
            attrs.append(dict(k="orn", path=self.path(), v=v))
        return dict(t="draw", how=how, path=self.path(), attrs=attrs)

    def canvas(self, depth, pool):
        r = self.r
        attrs = [a for a in self.some(self.style_attr, 3) if a["k"] != "clear"] if r.random() < 0.7 else []
        if r.random() < 0.55:
            attrs += [self.trafo() for _ in range(r.choice([1, 1, 2]))]
        if r.random() < 0.35:
            p = self.rect() if self.rectclip or r.random() < 0.5 else self.path()
            if self.orth:
                # boxes that merely touch are decided by rounding errors
                p = [dict(o=e["o"], a=[[x + 3, y + 3] for x, y in e["a"]]) for e in p]
            attrs.append(dict(k="clip", path=p))
        r.shuffle(attrs)
        items = []
        for _ in range(r.randint(0 if depth else 1, 3)):
            x = r.random()
            if depth > 0 and x < 0.45:
                if pool and r.random() < 0.3:
                    items.append(r.choice(pool))
                else:
                    s = self.canvas(depth - 1, pool)
                    pool.append(s)
                    items.append(s)
            else:
                items.append(self.draw())
        return dict(t="canvas", attrs=attrs, items=items)

    def placed(self, a):
        """a drawing with the attribute a at one of the places where it may be given"""
        r = self.r
        strokeonly = a["k"] in ("lw", "cap", "join", "miter", "dash", "linestyle")
        fillonly = a["k"] == "rule"
        places = ["plain"] + ([] if fillonly else ["stroked"]) + ([] if strokeonly else ["filled"])
        place = r.choice(places)
        attrs = [a] if place == "plain" else []
        both = r.random() < 0.4
        if place == "stroked" or both or (place == "plain" and not fillonly):
            attrs.append(dict(k="stroked", v=[a] if place == "stroked" else []))
        if place == "filled" or both or (place == "plain" and fillonly):
            attrs.append(dict(k="filled", v=[a] if place == "filled" else []))
        return dict(t="draw", how="draw", path=self.path(), attrs=attrs)

    def probe(self):
        """a drawing which shows the state of the canvas, as it has hardly any attribute of its own"""
        r = self.r
        x = r.random()
        if x < 0.4:
            return self.placed(dict(k="dash", v=[r.randint(1, 4), r.randint(1, 4)], off=0, rel=True))
        if x < 0.55:
            return dict(t="draw", how="stroke", path=self.path(), attrs=[dict(k="stroked", v=[])])
        if x < 0.7:
            return dict(t="draw", how="fill", path=self.path(), attrs=[dict(k="filled", v=[])])
        return dict(t="draw", how="draw", path=self.path(), attrs=[dict(k="filled", v=[]), dict(k="stroked", v=[])])

    def sequence(self):
        """attributes of one drawing or canvas and what is drawn after, within and around it"""
        r = self.r

        def some():
            a = self.stroke_attr() if r.random() < 0.6 else self.fill_attr()
            return self.placed(a)
        items = []
        for _ in range(r.randint(1, 3)):
            if r.random() < 0.25:
                a = self.stroke_attr() if r.random() < 0.6 else self.fill_attr()
                items.append(dict(t="canvas", attrs=[a] if r.random() < 0.7 else [], items=[some() if r.random() < 0.5 else self.probe()]))
            else:
                items.append(some())
            items.append(self.probe())
        return dict(t="canvas", attrs=[self.stroke_attr()] if r.random() < 0.3 else [], items=items)

    def scene(self):
        if not self.orth and self.r.random() < 0.35:
            return self.sequence()
        while True:
            s = self.canvas(self.r.randint(0, 3), [])
            if count(s) <= 40 and ndraw(s):
                return s


def count(s):
    return 1 + sum(count(i) for i in s["items"]) if s["t"] == "canvas" else 1


def ndraw(s):
    return sum(ndraw(i) for i in s["items"]) if s["t"] == "canvas" else 1


def record(scenes, fmt):
    """the pages of one document, each as a list of events"""
    def f():
        b = Builder()
        cs = [b.canvas(s) for s in scenes]
        if len(cs) == 1:
            return EVENTS[fmt](write(cs[0], fmt))
        from pyx import document
        d = document.document([document.page(c) for c in cs])
        return EVENTS[fmt](write(d, fmt))
    return guard(f)


def paint_check(ctx, fmt, n):
    """random scenes, written and read back, against the specification"""
    traces = []
    docs = 0
    while len(traces) < n:
        docs += 1
        if docs > 2 * n:
            break
        k = 1 if fmt == "svg" or ctx.rng.random() < 0.75 else ctx.rng.randint(2, 3)
        ss = [Gen(ctx.rng).scene() for _ in range(k)]
        if k > 1 and ctx.rng.random() < 0.3:
            ss[-1] = ss[0]
        o = record(ss, fmt)
        if not o.ok:
            ctx.violation("%s:write:%s" % (fmt, str(o.exc).split(":")[0]), "writing the scene failed: %s" % o.exc, ss)
            continue
        if len(o.value) != k:
            ctx.violation("%s:pages" % fmt, "%d pages written, %d expected" % (len(o.value), k), ss)
            continue
        for s, ev in zip(ss, o.value):
            traces.append(dict(fmt=fmt, scene=s, ev=ev))
    if traces:
        ctx.sample({"scene": traces[0]["scene"], "events": traces[0]["ev"][:12]}, 1)
    ctx.note(documents=docs, operators=sum(len(t["ev"]) for t in traces))
    ctx.validate("PaintTrace", traces, key=lambda t, l, why: "%s:%s" % (fmt, why),
                 describe=lambda t, l, why: "%s at %s operator %d %r of scene %r" % (why, fmt, l, t["ev"][l - 1], t["scene"]))
