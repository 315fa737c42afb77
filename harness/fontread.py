"""Texts shown in written files: font, glyph names, positions, and the fonts contained."""
import re
import xml.etree.ElementTree as ET
import pdfread, psread, t1build


def closure(font, g):
    """(subroutines, glyphs) a glyph's program needs"""
    subrs, glyphs, todo = set(), set(), [font["glyphs"][g]]
    while todo:
        cs = todo.pop()
        for k, c in enumerate(cs):
            if c[0] == "callsubr" and cs[k - 1][0] == "n":
                if cs[k - 1][1] not in subrs:
                    subrs.add(cs[k - 1][1])
                    todo.append(font["subrs"].get(cs[k - 1][1], []))
            elif c[0] == "seac":
                for j in (1, 2):
                    n = t1build.STD.get(cs[k - j][1])
                    if n not in glyphs:
                        glyphs.add(n)
                        todo.append(font["glyphs"].get(n, []))
    return subrs, glyphs


def intact(emb, orig):
    """names of the glyphs of an embedded font which are what they are in the original one"""
    res = []
    same = lambda a, b: a is not None and b is not None and [tuple(x) for x in a] == [tuple(x) for x in b]
    for g in emb["glyphs"]:
        if g not in orig["glyphs"]:
            continue
        subrs, glyphs = closure(orig, g)
        if same(emb["glyphs"][g], orig["glyphs"][g]) and all(same(emb["subrs"].get(s), orig["subrs"][s]) for s in subrs) and \
           all(same(emb["glyphs"].get(x), orig["glyphs"][x]) for x in glyphs):
            res.append(g)
    return sorted(res)


def own(emb):
    return {k: v for k, v in (t1build.STD if emb["encoding"] is None else emb["encoding"]).items()}


def width(emb, g):
    p = emb["glyphs"].get(g)
    return p[1][1] if p else None


def ps(data, widths):
    """list of texts; widths(fontname, glyph) for fonts which are not embedded"""
    f = psread.PSFile(data)
    fonts, order = {}, []
    for m in re.finditer(rb"%%BeginFont: (\S+)\n(.*?)%%EndFont|%%BeginResource: (\S+)\n(.*?)%%EndResource", f.prolog or b"", re.S):
        if m.group(1):
            p = t1build.parse(m.group(2))
            fonts[p["name"]] = dict(base=p["name"], emb=p, enc=own(p), matrix=p["matrix"])
            continue
        b = m.group(4)
        h = re.match(rb"/(\S+) /(\S+)\n", b)
        if not h:
            continue
        base, new = h.group(1).decode(), h.group(2).decode()
        src = fonts.get(base, dict(base=base, emb=None, enc=None, matrix=[0.001, 0, 0, 0.001, 0, 0]))
        rest = b[h.end():]
        nums = re.search(rb"\[(.*?)\]", rest, re.S).group(1)
        if b"ReEncodeFont" in rest:
            fonts[new] = dict(src, enc={i: v.decode() for i, v in enumerate(re.findall(rb"/(\S+)", nums))})
        elif b"ChangeFontMatrix" in rest:
            fonts[new] = dict(src, matrix=[float(x) for x in nums.split()])
    out = []
    for page in f.pages:
        cur, stack, item, pt = None, [], None, None
        for op, a in psread.ops(page):
            if op in ("gsave", "save"):
                stack.append(cur)
            elif op in ("grestore", "restore"):
                cur = stack.pop() if stack else None
            elif op == "selectfont":
                cur = (a[0][1], a[1])
            elif op == "moveto":
                pt = (a[0], a[1])
                item = None
            elif op == "rmoveto":
                pt = (pt[0] + a[0], pt[1] + a[1])
            elif op == "show":
                fo = fonts.get(cur[0])
                if fo is None:
                    raise ValueError("font %s is shown but not defined" % cur[0])
                if item is None:
                    item = dict(font=fo["base"], emb=fo["emb"], names=[], xs=[], y=pt[1], size=cur[1] * fo["matrix"][0] * 1000, slant=fo["matrix"][2] / fo["matrix"][0], widths=[])
                    if abs(fo["matrix"][3] - fo["matrix"][0]) > 1e-9 or fo["matrix"][1]:
                        raise ValueError("font matrix %s" % fo["matrix"])
                    out.append(item)
                for c in a[0][1]:
                    n = fo["enc"].get(c, "?")
                    item["names"].append(n)
                    item["xs"].append(pt[0])
                    w = width(fo["emb"], n) if fo["emb"] else widths(fo["base"], n)
                    pt = (pt[0] + (w if w is not None else 0) * item["size"] / 1000, pt[1])
    return out, [(x["base"], x["emb"]) for x in fonts.values() if x["emb"]]


def pdf(data):
    f = pdfread.PDFFile(data)
    if f.problems:
        raise ValueError("pdf: %s" % f.problems)
    out, embs = [], {}
    for page in f.pages():
        res = f.get(page["Resources"])
        fd = f.get(res.get("Font", {}))
        fonts = {}
        for name, ref in fd.items():
            d = f.get(ref)
            des = f.get(d["FontDescriptor"]) if "FontDescriptor" in d else {}
            emb = None
            if "FontFile" in des:
                s = f.get(des["FontFile"])
                emb = t1build.parse(s.data())
                if s.dic["Length1"] + s.dic["Length2"] + s.dic["Length3"] != len(s.data()):
                    raise ValueError("lengths of the font file")
                if not s.data()[:s.dic["Length1"]].rstrip().endswith(b"eexec"):
                    raise ValueError("Length1 of the font file")
                if emb["name"] != str(d["BaseFont"]) or emb["name"] != str(des["FontName"]):
                    raise ValueError("font names differ")
                embs[emb["name"]] = emb
            enc = own(emb) if emb else {}
            if "Encoding" in d:
                e = f.get(d["Encoding"])
                k = 0
                for x in e["Differences"]:
                    if isinstance(x, int):
                        k = x
                    else:
                        enc[k] = str(x)
                        k += 1
            ws = {int(d["FirstChar"]) + i: w for i, w in enumerate(d["Widths"])}
            if int(d["LastChar"]) - int(d["FirstChar"]) + 1 != len(d["Widths"]):
                raise ValueError("Widths of %s" % name)
            fonts[name] = dict(base=str(d["BaseFont"]), emb=emb, enc=enc, widths=ws)
        cur, stack, tm, inbt = None, [], None, False
        for op, a in pdfread.ops(f.content(page)):
            if op == "q":
                stack.append(cur)
            elif op == "Q":
                cur = stack.pop()
            elif op == "BT":
                inbt = True
            elif op == "ET":
                inbt = False
            elif op == "Tf":
                cur = (str(a[0]), float(a[1]))
            elif op == "Tm":
                tm = [float(x) for x in a]
            elif op in ("Tj", "TJ"):
                if not inbt:
                    raise ValueError("text outside of a text object")
                if cur[0] not in fonts:
                    raise ValueError("font %s is shown but not in the resources" % cur[0])
                fo = fonts[cur[0]]
                it = dict(font=fo["base"], emb=fo["emb"], names=[], xs=[], y=tm[5], size=cur[1] * tm[0], slant=tm[2] / tm[0], widths=[])
                if tm[0] != tm[3] or tm[1]:
                    raise ValueError("text matrix")
                out.append(it)
                x = tm[4]
                for part in (a[0] if op == "TJ" else [a[0]]):
                    if isinstance(part, (int, float)):
                        x -= part * it["size"] / 1000
                        continue
                    for c in part:
                        c = c if isinstance(c, int) else ord(c)
                        it["names"].append(fo["enc"].get(c, "?"))
                        it["xs"].append(x)
                        w = fo["widths"].get(c, 0)
                        it["widths"].append(int(w))
                        x += w * it["size"] / 1000
    return out, list(embs.items())


def num(s):
    return float(re.sub("[a-z]+$", "", s))


def svg(data, names, widths):
    """names(fontname, d) and widths(fontname, name) tell the glyph with the given outline of a font, for fonts not in the file names(fontname, character)"""
    root = ET.fromstring(data)
    tag = lambda e: e.tag.split("}")[-1]
    fonts = {}
    for e in root.iter():
        if tag(e) == "font":
            fam, gl = None, {}
            for x in e:
                if tag(x) == "font-face":
                    fam = x.get("font-family")
                elif tag(x) == "glyph":
                    if x.get("unicode") in gl:
                        raise ValueError("two glyphs for one character")
                    gl[x.get("unicode")] = (x.get("d"), float(x.get("horiz-adv-x")))
            if fam in fonts:
                raise ValueError("font defined twice")
            fonts[fam] = gl
    out = []
    for e in root.iter():
        if tag(e) != "text":
            continue
        fam, size = e.get("font-family"), num(e.get("font-size"))
        m = re.match(r"matrix\(([^)]*)\)", e.get("transform", "matrix(1 0 0 1 0 0)"))
        m = [float(x) for x in re.split(r"[ ,]+", m.group(1).strip())]
        x, y = num(e.get("x")), num(e.get("y"))
        it = dict(font=fam, emb=None, names=[], xs=[], y=-(m[1] * x + m[3] * y + m[5]), size=size, slant=-m[2], widths=[])
        if m[:2] != [1, 0] or abs(m[3] - 1) > 1e-9 or abs(m[2] * y + m[4]) > 1e-3 or abs(m[5]) > 1e-3:
            raise ValueError("transformation of a text %s" % m)
        out.append(it)

        def run(t):
            nonlocal x
            for ch in t or "":
                it["xs"].append(x)
                if fam in fonts:
                    if ch not in fonts[fam]:
                        raise ValueError("character %r of font %s is not defined" % (ch, fam))
                    d, w = fonts[fam][ch]
                    it["names"].append(names(fam, d))
                else:
                    it["names"].append(names(fam, ch))
                    w = widths(fam, it["names"][-1])
                x += w * size / 1000
        run(e.text)
        for s in e:
            if "dx" in s.attrib:
                x += num(s.get("dx"))
            run(s.text)
            run(s.tail)
    return out, fonts
