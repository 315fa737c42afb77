"""The list of paint operations of a written page, for all formats in the same shape:
dict(op="stroke"|"fill"|"text", d=[(kind, points)], color=text, lw=width, dash=[...]) in the coordinates of the paper (y upwards)."""
import re
import xml.etree.ElementTree as ET
import pdfread, psread, psstate

NUM = re.compile(r"[+-]?(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?")


def hexcolor(kind, v):
    if kind == "gray":
        v = [v[0]] * 3
    elif kind == "cmyk":
        v = [(1 - x) * (1 - v[3]) for x in v[:3]]
    return "#" + "".join("%02x" % int(round(255 * x)) for x in v)


def ps(data):
    res = []
    for op, d, gs in psstate.eps_paints(data):
        if op == "show":
            res.append(dict(op="text", d=[], color=hexcolor(*gs.color), lw=gs.lw, dash=[], clips=gs.clips))
        else:
            sc = abs(gs.ctm[0] * gs.ctm[3] - gs.ctm[1] * gs.ctm[2]) ** 0.5
            res.append(dict(op="stroke" if op == "stroke" else "fill", d=d, color=hexcolor(*gs.color), lw=gs.lw * sc, dash=list(gs.dash[0]), clips=gs.clips))
    return res


def pdf(data, page=0):
    f = pdfread.PDFFile(data)
    p = f.pages()[page]
    res, stack = [], []
    g = dict(ctm=(1, 0, 0, 1, 0, 0), lw=1.0, dash=[], s="#000000", f="#000000", clips=0)
    path = []
    for op, a in pdfread.ops(f.content(p)):
        if op == "q":
            stack.append(dict(g))
        elif op == "Q":
            g = stack.pop()
        elif op == "cm":
            g["ctm"] = psstate.mul(g["ctm"], [float(x) for x in a])
        elif op in ("m", "l", "c"):
            a = [float(x) for x in a]
            path.append(({"m": "m", "l": "l", "c": "c"}[op], [psstate.ap(g["ctm"], a[i], a[i + 1]) for i in range(0, len(a), 2)]))
        elif op == "h":
            path.append(("z", []))
        elif op == "re":
            x, y, w, h = [float(v) for v in a]
            path += [("m", [psstate.ap(g["ctm"], x, y)])] + [("l", [psstate.ap(g["ctm"], u, v)]) for u, v in [(x + w, y), (x + w, y + h), (x, y + h)]] + [("z", [])]
        elif op in ("S", "s", "f", "F", "f*", "B", "B*", "b", "b*"):
            if op in ("s", "b", "b*"):
                path.append(("z", []))
            sc = abs(g["ctm"][0] * g["ctm"][3] - g["ctm"][1] * g["ctm"][2]) ** 0.5
            if op not in ("S", "s"):
                res.append(dict(op="fill", d=path, color=g["f"], lw=g["lw"] * sc, dash=[], clips=g["clips"]))
            if op not in ("f", "F", "f*"):
                res.append(dict(op="stroke", d=path, color=g["s"], lw=g["lw"] * sc, dash=g["dash"], clips=g["clips"]))
            path = []
        elif op in ("W", "W*"):
            g["clips"] += 1
        elif op == "n":
            path = []
        elif op == "w":
            g["lw"] = float(a[-1])
        elif op == "d":
            g["dash"] = [float(x) for x in a[0]]
        elif op in ("g", "rg", "k"):
            g["f"] = hexcolor({"g": "gray", "rg": "rgb", "k": "cmyk"}[op], [float(x) for x in a])
        elif op in ("G", "RG", "K"):
            g["s"] = hexcolor({"g": "gray", "rg": "rgb", "k": "cmyk"}[op.lower()], [float(x) for x in a])
        elif op in ("Tj", "TJ"):
            res.append(dict(op="text", d=[], color=g["f"], lw=0, dash=[], clips=g["clips"]))
    return res


def svgd(d):
    res, cur, start = [], (0.0, 0.0), (0.0, 0.0)
    for m in re.finditer(r"([A-Za-z])([^A-Za-z]*(?:[eE][+-]?\d[^A-Za-z]*)*)", d or ""):
        c, n = m.group(1), [float(x) for x in NUM.findall(m.group(2))]
        if c in "zZ":
            res.append(("z", []))
            cur = start
            continue
        w = dict(M=2, L=2, C=6, H=1, V=1)[c.upper()]
        rel, c = c.islower(), c.upper()
        for i in range(0, len(n), w):
            a = n[i:i + w]
            if rel:
                a = [v + cur[1 if c == "V" else 0 if c == "H" else k % 2] for k, v in enumerate(a)]
            a = [a[0], cur[1]] if c == "H" else [cur[0], a[0]] if c == "V" else a
            pts = [(a[k], a[k + 1]) for k in range(0, len(a), 2)]
            res.append(({"M": "m" if i == 0 else "l", "C": "c"}.get(c, "l"), pts))
            cur = pts[-1]
            if c == "M" and i == 0:
                start = cur
    return res


def svg(data):
    root = ET.fromstring(data)
    res = []
    tag = lambda e: e.tag.split("}")[-1]
    names = dict(black="#000000", white="#ffffff", red="#ff0000")

    def color(v):
        v = names.get(v, v)
        return "#" + "".join(c * 2 for c in v[1:]) if v.startswith("#") and len(v) == 4 else v.lower()

    def walk(e, g):
        if tag(e) in ("clipPath", "defs", "symbol", "linearGradient", "pattern"):
            return
        g = dict(g)
        a = e.attrib
        t = a.get("transform")
        if t:
            m = re.match(r"\s*matrix\(([^)]*)\)\s*$", t)
            g["ctm"] = psstate.mul(g["ctm"], [float(x) for x in NUM.findall(m.group(1))])
        if a.get("clip-path", "none") != "none":
            g["clips"] += 1
        if "stroke" in a:
            g["s"] = color(a["stroke"])
        if "fill" in a:
            g["f"] = color(a["fill"])
        if "stroke-width" in a:
            g["lw"] = float(NUM.findall(a["stroke-width"])[0])
        if "stroke-dasharray" in a:
            g["dash"] = [] if a["stroke-dasharray"] == "none" else [float(x) for x in NUM.findall(a["stroke-dasharray"])]
        if tag(e) == "path":
            d = [(k, [psstate.ap(g["ctm"], *p) for p in pts]) for k, pts in svgd(a.get("d"))]
            d = [(k, [(x, -y) for x, y in pts]) for k, pts in d]
            sc = abs(g["ctm"][0] * g["ctm"][3] - g["ctm"][1] * g["ctm"][2]) ** 0.5
            if g["f"] != "none":
                res.append(dict(op="fill", d=d, color=g["f"], lw=g["lw"] * sc, dash=[], clips=g["clips"]))
            if g["s"] != "none":
                res.append(dict(op="stroke", d=d, color=g["s"], lw=g["lw"] * sc, dash=g["dash"], clips=g["clips"]))
        elif tag(e) in ("text", "use"):
            res.append(dict(op="text", d=[], color=g["f"], lw=0, dash=[], clips=g["clips"]))
        for k in e:
            walk(k, g)
    walk(root, dict(ctm=(1, 0, 0, 1, 0, 0), s="none", f="#000000", lw=1.0, dash=[], clips=0))
    return res


READ = dict(eps=ps, pdf=pdf, svg=svg)
