"""SVG files as event sequences for spec/SVGTrace.tla."""
import base64, io, re, xml.sax, xml.sax.handler
import docgen

SVG, XLINK = "http://www.w3.org/2000/svg", "http://www.w3.org/1999/xlink"
NUM = r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?"
NUMBER = re.compile(NUM + r"\Z")
ARITY = dict(M=2, L=2, H=1, V=1, C=6, S=4, Q=4, T=2, A=7, Z=0)


def pathdata(d):
    """True if the data follow the grammar and start with a moveto"""
    toks = re.findall(r"[A-Za-z]|" + NUM + r"|[^\s,]", d)
    i, first = 0, True
    while i < len(toks):
        c = toks[i].upper()
        if c not in ARITY or (first and c != "M"):
            return False
        first = False
        i += 1
        n = 0
        while i < len(toks) and NUMBER.match(toks[i]):
            i += 1
            n += 1
        if (ARITY[c] == 0 and n) or (ARITY[c] and (not n or n % ARITY[c])):
            return False
    return True


TRANSFORM = re.compile(r"(?:matrix\(\s*%s(?:[\s,]+%s){5}\s*\)\s*)+\Z" % (NUM, NUM))
PAINT = re.compile(r"none\Z|black\Z|#[0-9a-fA-F]{6}\Z|#[0-9a-fA-F]{3}\Z|rgb\([^()]*\)\Z|url\(#[^()\s]+\)\Z")
LIST = re.compile(r"(?:none|%s(?:[\s,]+%s)*)\Z" % (NUM, NUM))
BOX = re.compile(r"%s(?:[\s,]+%s){3}\Z" % (NUM, NUM))
LENGTH = re.compile(r"%s(?:pt|px|cm|mm|in)?\Z" % NUM)


def valid(name, a, v):
    if a in ("d",):
        return pathdata(v)
    if a in ("transform", "patternTransform"):
        return TRANSFORM.match(v) is not None
    if a in ("fill", "stroke"):
        return PAINT.match(v) is not None
    if a == "clip-path":
        return re.match(r"url\(#[^()\s]+\)\Z", v) is not None
    if a == "stroke-dasharray":
        return LIST.match(v) is not None
    if a == "viewBox":
        return BOX.match(v) is not None and all(float(x) >= 0 for x in re.split(r"[\s,]+", v)[2:])
    if a in ("opacity", "fill-opacity", "stroke-opacity"):
        return NUMBER.match(v) is not None and 0 <= float(v) <= 1
    if a in ("x", "y", "width", "height", "dx", "stroke-width", "font-size", "stroke-dashoffset"):
        return LENGTH.match(v) is not None and (a in ("x", "y", "dx", "stroke-dashoffset") or not v.startswith("-"))
    if a in ("stroke-miterlimit", "horiz-adv-x"):
        return NUMBER.match(v) is not None
    if a == "stroke-linecap":
        return v in ("butt", "round", "square")
    if a == "stroke-linejoin":
        return v in ("miter", "round", "bevel")
    if a == "fill-rule":
        return v in ("nonzero", "evenodd")
    if a == "id":
        return re.match(r"[A-Za-z_][-\w.]*\Z", v) is not None
    return True


_glyphs = {}


def glyph(family, d):
    """the name of a glyph of the fonts of docgen, identified by its outline"""
    if family not in docgen.FONTNAMES:
        return ""
    if family not in _glyphs:
        f = docgen.Pool().font(docgen.FONTNAMES.index(family)).t1file
        names = set(docgen.STANDARD.values()) | set(docgen.GLYPHS.values()) | set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ") | {"fi"}
        _glyphs[family] = {f.getglyphpath_pt(0, 0, n, 1000, convertcharcode=False).path.returnSVGdata(inverse_y=False): n for n in names}
    return _glyphs[family].get(d, "?")


_images = {}


def images():
    from PIL import Image
    if not _images:
        for i, (mode, w, h, data, pal, compress) in enumerate(docgen.image_specs()):
            if compress == "Flate" and mode in ("RGB", "RGBA", "L", "P"):
                im = Image.frombytes(mode, (w, h), data)
                if pal:
                    im.putpalette(pal)
                _images.setdefault((w, h, im.convert("RGBA").tobytes()), "image%d" % i)
    return _images


def image(href):
    from PIL import Image
    m = re.match(r"data:image/(png|jpeg);base64,(.*)\Z", href, re.S)
    if not m:
        return "external-image"
    try:
        im = Image.open(io.BytesIO(base64.b64decode(m[2], validate=True)))
        im.load()
        return images().get((im.size[0], im.size[1], im.convert("RGBA").tobytes()), "unknown-image")
    except Exception as e:
        return "unreadable-image"


class Reader(xml.sax.handler.ContentHandler):
    def __init__(self):
        self.ev, self.stack, self.text, self.inside, self.patterns, self.family = [], [], None, 0, [], ""

    def startElementNS(self, name, qname, attrs):
        uri, n = name
        if self.inside or (n == "svg" and self.stack):
            # a foreign file inserted as it is
            if not self.inside:
                self.ev.append(dict(k="start", name="embedded", ns=uri == SVG, id="", refs=[], attrs=[], bad=[], family="", chars=[], what=""))
            self.inside += 1
            return
        a = {}
        ns = uri == SVG
        for (u, k), v in attrs.items():
            if u is None:
                a[k] = v
            elif u == XLINK and k == "href":
                a["href"] = v
            else:
                ns = False
        refs = [[k, v[5:-1]] for k, v in sorted(a.items()) if v.startswith("url(#")]
        e = dict(k="start", name=n, ns=ns, id=a.get("id", ""), refs=refs, attrs=sorted(a), bad=sorted(k for k, v in a.items() if not valid(n, k, v)),
                 family=a.get("font-family", ""), chars=[ord(c) for c in a.get("unicode", "")], what="")
        self.ev.append(e)
        if n == "font-face":
            self.family = e["family"]
        if n == "glyph":
            e["what"] = glyph(self.family, a.get("d", ""))
        if n == "pattern":
            self.patterns.append(e)
        elif self.patterns and not e["bad"] and not self.patterns[-1]["what"]:
            m = re.match(r"rgb\((.*)%\s*,(.*)%\s*,(.*)%\)|#(..)(..)(..)", a.get("fill", ""))
            if m and n == "path":
                r, g = (float(m[1]) / 100, float(m[2]) / 100) if m[1] else (int(m[4], 16) / 255.0, int(m[5], 16) / 255.0)
                self.patterns[-1]["what"] = "pattern%d" % docgen.unmark(r, g)
        if n == "image" and "href" in a:
            self.ev.append(dict(k="image", what=image(a["href"])))
        for k, i in refs:
            if k == "fill" and n == "path":
                self.ev.append(dict(k="use", id=i))
        if n == "text":
            self.text = dict(k="text", family=a.get("font-family", ""), size="%g" % float(a.get("font-size", 0)), opacity=int(round(1000 * float(a.get("opacity", 1)))), chars="",
                             x=int(round(1000 * float(a.get("x", 0)))), y=int(round(1000 * float(a.get("y", 0)))),
                             matrix=[int(round(1000 * float(x))) for x in re.findall(NUM, a.get("transform", ""))])
            self.text["slant"] = -self.text["matrix"][2] if len(self.text["matrix"]) == 6 else 0
        self.stack.append(n)

    def endElementNS(self, name, qname):
        n = name[1]
        if self.inside:
            self.inside -= 1
            if not self.inside:
                self.ev.append(dict(k="end", name="embedded"))
            return
        if n == "text":
            self.text["chars"] = [ord(c) for c in self.text["chars"]]
            self.ev.append(self.text)
            self.text = None
        if n == "pattern":
            self.patterns.pop()
        self.stack.pop()
        self.ev.append(dict(k="end", name=n))

    def characters(self, s):
        if self.text is not None:
            self.text["chars"] += s


def read(data):
    h = Reader()
    p = xml.sax.make_parser()
    p.setContentHandler(h)
    p.setFeature(xml.sax.handler.feature_namespaces, True)
    p.setFeature(xml.sax.handler.feature_external_ges, False)
    try:
        p.parse(io.BytesIO(data))
    except xml.sax.SAXException as e:
        h.ev.append(dict(k="failed", why="not well-formed: %s" % e.getMessage()))
    return h.ev
