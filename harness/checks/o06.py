"""O06: PDF files are well-formed object graphs (spec/PDFDoc.tla, PDFTrace.tla, DocMC.tla)."""
import calendar, hashlib, io, json, os, re, time, zlib
from vp import guard
import docgen, pdfread
from pdfread import Ref, Name, Stream

CATS = ("Font", "XObject", "ExtGState", "Pattern", "Shading")


def kind(o):
    d = o.dic if isinstance(o, Stream) else o
    if isinstance(o, list):
        return "Array"
    if not isinstance(d, dict):
        return "Other"
    t = d.get("Type")
    if t in ("Catalog", "Pages", "Page", "Font", "FontDescriptor", "Encoding", "XObject", "ExtGState", "Pattern", "Annot"):
        return str(t)
    if "ShadingType" in d:
        return "Shading"
    if "FT" in d:
        return "Field"
    if "Fields" in d:
        return "Form"
    if isinstance(o, Stream):
        return "Stream"
    return "Other"


def reflist(o, key=""):
    if isinstance(o, Ref):
        return [[key, o[0]]]
    if isinstance(o, Stream):
        return reflist(o.dic, key)
    if isinstance(o, dict):
        return [x for k, v in o.items() if k != "#dup" for x in reflist(v, key if key in CATS or key in ("N", "Off") else k)]
    if isinstance(o, list):
        return [x for v in o for x in reflist(v, key)]
    return []


def dups(o):
    d = o.dic if isinstance(o, Stream) else o
    if isinstance(d, dict):
        return "#dup" in d or any(dups(v) for v in d.values())
    if isinstance(d, list):
        return any(dups(v) for v in d)
    return False


def images():
    res = {}
    for i, (mode, w, h, data, pal, compress) in enumerate(docgen.image_specs()):
        m, alpha = mode, None
        bands = lambda ks: bytes(b for p in range(w * h) for b in [data[p * len(mode) + k] for k in ks])
        if mode.startswith("A"):
            m, alpha, data = mode[1:], bands([0]), bands(range(1, len(mode)))
        elif mode.endswith("A"):
            m, alpha, data = mode[:-1], bands([len(mode) - 1]), bands(range(len(mode) - 1))
        res.setdefault((w, h, "P" if pal else m, data, alpha, pal), "image%d" % i)
        if i == 7:    # the same picture as number 0, stored without compression
            res[(w, h, m, data, alpha, pal, 1)] = "image7"
    return res


_images = {}


def what(f, cat, o):
    """which thing of docgen an object shows"""
    o = f.get(o)
    try:
        d = o.dic if isinstance(o, Stream) else o
        if cat == "XObject" and d.get("Subtype") == "Image":
            if not _images:
                _images.update(images())
            cs = f.get(d["ColorSpace"])
            pal = None
            if isinstance(cs, list):
                pal, mode = f.get(cs[3]).data() if cs[0] == "Indexed" and cs[1] == "DeviceRGB" else None, "P"
                if cs[2] * 3 + 3 != len(pal):
                    return "palette-size"
            else:
                mode = {"DeviceRGB": "RGB", "DeviceGray": "L", "DeviceCMYK": "CMYK"}[cs]
            alpha = f.get(d["SMask"]).data() if "SMask" in d else None
            if alpha is not None:
                s = f.get(d["SMask"]).dic
                if (s["Width"], s["Height"], s["ColorSpace"], s["BitsPerComponent"]) != (d["Width"], d["Height"], "DeviceGray", 8):
                    return "mask-shape"
            if d["BitsPerComponent"] != 8:
                return "bits"
            key = (d["Width"], d["Height"], mode, o.data(), alpha, pal)
            if "Filter" not in d and key + (1,) in _images:
                return _images[key + (1,)]
            return _images.get(key, "unknown-image %r" % (key[:3],))
        if cat == "XObject":
            return "form"
        if cat == "ExtGState":
            v = lambda k: "%d" % round(1000 * d[k])
            return ("s" + v("CA") if "CA" in d else "") + ("f" + v("ca") if "ca" in d else "")
        if cat == "Shading":
            data = o.data()
            r, g = data[7] / 255.0, data[8] / 255.0
            return "mesh%d" % (docgen.unmark(r, g) - 50)
        if cat == "Pattern":
            for op, a in pdfread.ops(o.data()):
                if op == "rg":
                    return "pattern%d" % docgen.unmark(float(a[0]), float(a[1]))
        if cat == "Font":
            return str(d.get("BaseFont"))
    except Exception as e:
        return "unreadable %s %r" % (cat, e)
    return "unknown"


def glyphs(f, res, font, data):
    """[font, size, glyph names] of fonts known to the generator, [] otherwise"""
    d = f.get((f.get(res.get("Font")) or {}).get(font[0])) or {}
    base = str(d.get("BaseFont"))
    if base not in docgen.FONTNAMES:
        return []
    vec = docgen.STANDARD
    enc = f.get(d.get("Encoding"))
    if isinstance(enc, dict):
        vec, i = {}, 0
        for x in enc.get("Differences", []):
            if isinstance(x, Name):
                vec[i] = str(x)
                i += 1
            else:
                i = int(x)
    return [base, font[1]] + [vec.get(c, "?") for c in data]


def stream(f, data, res, want, texts=None):
    res = f.get(res) or {}
    names = [[c, n] for c in CATS for n in (f.get(res.get(c)) or {}) if n != "#dup"]
    ev = [dict(k="begin", res=names)]
    ops = pdfread.ops(data)
    fonts = [("", "")]
    for op, a in ops:
        shown = []
        if op == "q":
            fonts.append(fonts[-1])
        elif op == "Q" and len(fonts) > 1:
            fonts.pop()
        elif op == "Tf" and len(a) == 2:
            fonts[-1] = (str(a[0]), "%g" % float(a[1]))
        elif op in ("Tj", "TJ") and a:
            shown = glyphs(f, res, fonts[-1], b"".join(x for x in a[0] if isinstance(x, bytes)) if isinstance(a[0], list) else a[0])
        name = next((str(x) for x in a if isinstance(x, Name)), "") if op in ("Tf", "Do", "gs", "sh", "scn", "cs") else ""
        cat = dict(Tf="Font", Do="XObject", gs="ExtGState", sh="Shading", scn="Pattern").get(op)
        target = (f.get(res.get(cat)) or {}).get(name) if cat else None
        ev.append(dict(k="op", op=op, n=len(a), name=name, what=what(f, cat, target) if target is not None else "", shown=shown))
    sel = lambda o: [x for x in (want or []) if x[0] == o]
    ev.append(dict(k="end", check=want is not None, texts=texts is not None, shown=texts or [], images=sel("Do"), shadings=sel("sh"), patterns=sel("scn"), gs=sel("gs")))
    return ev


def record(data, pages, opt, now):
    f = pdfread.PDFFile(data)
    kinds = [kind(f.objects.get(n)) for n in range(1, getattr(f, "count", 1))]
    heads = [[int(m.group(1)), m.start() + (1 if m.group(0)[:1] == b"\n" else 0)] for m in re.finditer(rb"(?:^|\n)(\d+) 0 obj\n", data)]
    inside = []
    for n, o in f.objects.items():
        if isinstance(o, Stream):
            i = data.find(b"stream", f.pos[n])
            inside.append((i, i + len(o.raw)))
    heads = [h for h in heads if not any(a < h[1] < b for a, b in inside)]
    num = lambda k: (f.trailer.get(k) or (0,))[0]
    ev = [dict(k="file", header=data.startswith(b"%PDF-1.4\n"), problem=" ".join(sorted(set(f.problems))), size=f.trailer.get("Size", 0), xref=[[n, p] for n, p in sorted(f.xref.items())], heads=sorted(heads),
               root=num("Root"), info=num("Info"), kinds=kinds)]
    for n, o in sorted(f.objects.items()):
        dec = True
        if isinstance(o, Stream):
            try:
                dec = o.data() is not None or o.dic.get("Filter") == "DCTDecode"
            except Exception:
                dec = False
        ln = o.dic.get("Length") if isinstance(o, Stream) else 0
        ev.append(dict(k="obj", num=n, refs=reflist(o), len=ln if isinstance(ln, int) else -1, actual=len(o.raw) if isinstance(o, Stream) else 0, keys=not dups(o), decodes=dec))
    root = f.get(f.trailer.get("Root")) or {}
    node = f.get(root.get("Pages")) or {}
    kids = node.get("Kids", [])
    ev.append(dict(k="tree", count=node.get("Count", -1), kids=[x[0] for x in kids], want=len(pages), parents=[(f.get(x).get("Parent") or [0])[0] for x in kids], node=(root.get("Pages") or [0])[0]))
    done = set()
    for ref, p in zip(kids, pages):
        page = f.get(ref)
        want = docgen.uses(p)
        ev += stream(f, f.content(page), page.get("Resources"), want, None if opt.get("textaspath") or opt.get("text_as_path") else docgen.shown(p))
        an = f.get(page.get("Annots")) or []
        got = []
        for a in an:
            a = f.get(a)
            t = a.get("T") or (f.get(a.get("Parent")) or {}).get("T") or b"?"
            got.append(text(t))
        ev.append(dict(k="annots", got=sorted(got), want=sorted(docgen.fields(p)), rects=all(len(f.get(a).get("Rect", [])) == 4 for a in an)))
    for n, o in sorted(f.objects.items()):
        if isinstance(o, Stream) and o.dic.get("Type") == "Pattern":
            w = what(f, "Pattern", Ref((n, 0)))
            ev += stream(f, o.data(), o.dic.get("Resources"), docgen.pattern_uses(int(w[7:])) if w.startswith("pattern") and w[7:].isdigit() and int(w[7:]) < docgen.NPATTERNS else [["Do", w]])
        elif isinstance(o, Stream) and o.dic.get("Subtype") == "Form":
            ev += stream(f, o.data(), o.dic.get("Resources"), None)
    form = f.get(root.get("AcroForm")) or {}
    ev.append(dict(k="form", got=sorted(text(f.get(x).get("T") or b"?") for x in form.get("Fields", [])), want=sorted(x for p in pages for x in docgen.formfields(p))))
    info = f.get(f.trailer.get("Info")) or {}
    meta = lambda k: text(info.get(k))
    ev += fieldevents(f)
    ev.append(dateevent(text(info.get("CreationDate")), now))
    ev.append(dict(k="meta", got=[meta("Title"), meta("Author"), meta("Subject"), meta("Keywords"), str(root.get("PageMode", ""))],
                   want=[opt.get("title") or "", opt.get("author") or "", opt.get("subject") or "", opt.get("keywords") or "", "FullScreen" if opt.get("fullscreen") else ""]))
    return ev


def text(b):
    b = b or b""
    return b[2:].decode("utf-16-be") if b[:2] == b"\xfe\xff" else b.decode("latin1")


def fieldevents(f):
    ev = []
    for n, o in sorted(f.objects.items()):
        if isinstance(o, dict) and "FT" in o and "Kids" in o:
            kids = [f.get(k) for k in o["Kids"]]
            ev.append(dict(k="buttons", v=str(o.get("V")), states=[sorted(str(s) for s in f.get(k["AP"]["N"]) if s != "#dup") for k in kids], on=[str(k["AS"]) for k in kids]))
        elif isinstance(o, dict) and o.get("FT") == "Ch":
            ev.append(dict(k="choice", v=[text(o["V"])] if "V" in o else [], opt=[text(x) for x in o["Opt"]]))
        if isinstance(o, dict) and "DA" in o:
            ev += stream(f, o["DA"], o.get("DR"), None)
    return ev


DATE = re.compile(r"D:(\d{4})(\d\d)(\d\d)(\d\d)(\d\d)(\d\d)?(?:([-+Z])(\d\d)'(\d\d)'?)?$")


def dateevent(s, now):
    m = DATE.match(s)
    if not m:
        return dict(k="date", valid=False, local=0, sign=0, off=0, now=now)
    local = calendar.timegm((int(m[1]), int(m[2]), int(m[3]), int(m[4]), int(m[5]), int(m[6] or 0), 0, 0, 0)) // 60 - EPOCH
    return dict(k="date", valid=True, local=local, sign={"+": 1, "-": -1}.get(m[7], 0), off=int(m[8] or 0) * 60 + int(m[9] or 0), now=now)


EPOCH = 20 * 365 * 24 * 60
ZONES = ["UTC", "CET-1CEST", "NST3:30NDT", "IST-5:30", "NZST-12NZDT,M9.5.0,M4.1.0/3", "PST8PDT", "CHAST-12:45CHADT,M9.5.0/2:45,M4.1.0/3:45", "CST6CDT,M3.2.0,M12.5.0"]


def write(pages, opt, pool=None, paper=None):
    opt = dict(opt)
    d, pool = docgen.build(pages, pool, paper)
    b = io.BytesIO()
    zone = opt.pop("zone", None)
    old = {k: os.environ.get(k) for k in ("TZ", "SOURCE_DATE_EPOCH")}
    try:
        now = int(time.time()) // 60 - EPOCH
        if isinstance(zone, int):
            os.environ["SOURCE_DATE_EPOCH"] = str(zone)
            now = zone // 60 - EPOCH
        elif zone:
            os.environ["TZ"] = zone
            os.environ.pop("SOURCE_DATE_EPOCH", None)
        time.tzset()
        d.writePDFfile(b, **opt)
    finally:
        for k, v in old.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v
        time.tzset()
    return b.getvalue(), now


def options(r):
    opt = dict(compress=r.random() < 0.5, writebbox=r.random() < 0.5, stripfonts=r.random() < 0.85, textaspath=r.random() < 0.2)
    for k in ("title", "author", "subject", "keywords"):
        if r.random() < 0.3:
            opt[k] = r.choice(["plain", "with (parens", "back\\slash \u00e9", "a) << [x] >>", "tab\there", "\x7f~", "\u0141 \u20ac (", "\U0001d11e"])
    opt["zone"] = r.choice(ZONES + [1500000000, 1700000000])
    if r.random() < 0.1:
        opt.update(r.choice([dict(strip_fonts=True), dict(text_as_path=True), dict(mesh_as_bitmap=False), dict(mesh_as_bitmap_resolution=50)]))
    if r.random() < 0.2:
        opt["fullscreen"] = True
    return opt


ITEMS = [dict(kind="image", i=0), dict(kind="image", i=1), dict(kind="image", i=3), dict(kind="pattern", i=2), dict(kind="pattern", i=0), dict(kind="gs", which="f", v=0.5), dict(kind="field", what="text"), dict(kind="field", what="radio"), dict(kind="image", i=2)]


def run(ctx):
    r = ctx.rng
    traces = []
    def trace(pages, opt, pool=None, paper=None, why=""):
        o = guard(write, pages, opt, pool, paper, seconds=60)
        if o.ok:
            o2 = guard(record, o.value[0], pages, opt, o.value[1], seconds=60)
            ev = o2.value if o2.ok else [dict(k="failed", why="unreadable: " + str(o2.exc))]
        else:
            ev = [dict(k="failed", why=str(o.exc))]
        traces.append(dict(pages=json.dumps(pages), opt=json.dumps(opt), ev=ev, o=why))
    # every small document
    res = ctx.model_check("DocMC", constants=dict(N=len(ITEMS), MaxPages=2, MaxUses=2), invariants=["Sound", "Emit"], label="all documents of up to two pages with up to two resources each", heap="8g")
    docs = [json.loads(p[1:]) for p in res.prints]
    n = ctx.n(500, 6000)
    for d in (ctx.rng.sample(docs, n) if len(docs) > n else docs):
        k = [0]
        def it(i):
            x = dict(ITEMS[i - 1])
            if x["kind"] == "field":
                k[0] += 1
                x["name"] = "f%d" % k[0]
            return x
        trace([[it(i) for i in p] for p in d], options(r), why="small")
    pool = docgen.Pool()
    for i in range(ctx.n(300, 4000)):
        g = docgen.Gen(r, "pdf")
        pages = [g.page() for _ in range(r.choice([1, 1, 2, 3, 5]))]
        trace(pages, options(r), pool if i % 3 == 0 else None, r.choice([None, ["A4"], ["A5", None]]), "random")
    def key(t, l, why):
        e = t["ev"][l - 1]
        extra = e.get("op", "") or e.get("why", "")[:80]
        return "pdf:%s:%s" % (why, extra)
    def describe(t, l, why):
        return "%s: %s; document %s options %s" % (why, json.dumps(t["ev"][l - 1])[:300], t["pages"][:400], t["opt"])
    ctx.validate("PDFTrace", traces, key=key, describe=describe, heap="12g", chunk=400)
    ctx.sample({"document": traces[-1]["pages"]})
