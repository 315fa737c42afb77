"""O07: PostScript files are well-formed documents (spec/PSDoc.tla, PSTrace.tla, DocMC.tla)."""
import io, json, os, shutil, tempfile
from vp import guard
import docgen, psdoc

SAME = {"image7": "image0"}      # the same picture, differing in the compression only

EPS = {"plain.eps": b"%!PS-Adobe-3.0 EPSF-3.0\n%%BoundingBox: 0 0 20 10\n%%EndComments\n0 0 moveto 20 10 lineto stroke\n%%EOF\n",
       "unended.eps": b"%!PS-Adobe-3.0 EPSF-3.0\n%%BoundingBox: 5 5 25 15\n%%EndComments\n5 5 moveto 25 15 lineto stroke\nshowpage",
       "nested.eps": b"%!PS-Adobe-3.0 EPSF-3.0\n%%BoundingBox: 0 0 20 10\n%%EndComments\n%%BeginDocument: inner\n%!PS-Adobe-3.0 EPSF-3.0\n%%BoundingBox: 1 1 2 2\nnewpath\n%%EndDocument\n0 0 moveto 20 10 lineto stroke\n%%EOF\n",
       "with space.eps": b"%!PS-Adobe-3.0 EPSF-3.0\n%%BoundingBox: 0 0 20 10\n0 0 moveto 20 10 lineto stroke\n"}


def depth(items):
    """the items as PostScript can show them"""
    return items


def pick(items, op):
    return [SAME.get(w, w) for o, w in docgen.uses(items, "ps") if o == op]


FORMATS = ["A4", "Letter", "A0b", "c100x200", "c110x200", "named"]


def paperformat(name):
    from pyx import document, unit
    if name is None:
        return None
    if name.startswith("c"):
        w, h = name[1:].split("x")
        return document.paperformat(float(w) * unit.t_pt, float(h) * unit.t_pt)
    if name == "named":
        return document.paperformat(120.4 * unit.t_pt, 300.6 * unit.t_pt, "My paper")
    return getattr(document.paperformat, name)


SIZES = {"A4": (595, 842), "Letter": (612, 792), "A0b": (2580, 3883), "c100x200": (100, 200), "c110x200": (110, 200), "named": (120, 301)}


def write(pages, opt, popt, eps, pool):
    from pyx import canvas, document
    pool = pool or docgen.Pool()
    d = document.document()
    for items, p in zip(pages, popt):
        c = docgen.place(canvas.canvas(), items, pool)
        d.append(document.page(c, pagename=p.get("name"), paperformat=paperformat(p.get("paper")), rotated=p.get("rotated", 0), fittosize=p.get("fit", 0)))
    b = io.BytesIO()
    (d.writeEPSfile if eps else d.writePSfile)(b, **opt)
    return b.getvalue()


def record(data, pages, opt, popt, eps, files):
    want = dict(pages=len(pages), labels=[str(i + 1) if p.get("name") is None else p["name"] for i, p in enumerate(popt)], rotated=[p.get("rotated", 0) for p in popt], files=files,
                media=[p.get("paper") for p in popt])
    rd = psdoc.Reader(data, eps, want)
    ev = rd.run()
    # only the printable part of a text can be compared once characters have been replaced
    titles = [e["text"] for e in ev if e["k"] == "dsc" and e["key"] == "Title"]
    aspath = opt.get("textaspath") or opt.get("text_as_path")
    cat = lambda f: [x for p in pages for x in f(p)]
    asbitmap = opt.get("meshasbitmap")
    ev.append(dict(k="end", images=cat(lambda p: pick(p, "Do")), patterns=cat(lambda p: pick(p, "scn")), meshes=cat(lambda p: pick(p, "sh")), texts=not aspath, shown=cat(docgen.shown),
                   title=titles, titlewant=[opt["title"]] if opt.get("title") is not None else [], nmedia=sorted([list(SIZES[x]) for x in set(p.get("paper") for p in popt if p.get("paper"))] if not eps else [])))
    return ev


def options(r, eps):
    opt = dict(stripfonts=r.random() < 0.85, textaspath=r.random() < 0.2)
    if not eps:
        opt["writebbox"] = r.random() < 0.6
    if r.random() < 0.4:
        opt["title"] = r.choice(["plain", "two words", "(parens", "back\\slash (", "caf\u00e9", "two\nlines", "%%EndComments\n", ""])
    if r.random() < 0.1:
        opt.update(r.choice([dict(strip_fonts=True), dict(text_as_path=True), dict(mesh_as_bitmap=False), dict(mesh_as_bitmap_resolution=50)]))
    return opt


def pageoptions(r, n):
    res = []
    for i in range(n):
        p = {}
        if r.random() < 0.3:
            p["name"] = r.choice(["i", "cover", "page two", "(a", "", "\u00e4"])
        if r.random() < 0.5:
            p["paper"] = r.choice(FORMATS)
            p["rotated"] = r.choice([0, 1])
            p["fit"] = r.choice([0, 0, 1]) if SIZES[p["paper"]][0] > 150 else 0
        res.append(p)
    return res


ITEMS = [dict(kind="image", i=0), dict(kind="image", i=0, store=1), dict(kind="image", i=3, store=2), dict(kind="pattern", i=2), dict(kind="pattern", i=0), dict(kind="pattern", i=3), dict(kind="mesh", i=1),
         dict(kind="text", f=0, s="Ab("), dict(kind="text", f=2, s="fi", opts=dict(ligatures=True)), dict(kind="group", attrs=[], items=[dict(kind="text", f=2, s="b")]), dict(kind="image", i=10, hexa=1)]


def run(ctx):
    r = ctx.rng
    traces = []
    scratch = tempfile.mkdtemp()
    try:
        files = {}
        for n, data in EPS.items():
            p = os.path.join(scratch, n)
            with open(p, "wb") as f:
                f.write(data)
            files[p] = data

        def trace(pages, opt, popt, eps, pool=None):
            o = guard(write, pages, opt, popt, eps, pool, seconds=60)
            if o.ok:
                o2 = guard(record, o.value, pages, opt, popt, eps, files, seconds=60)
                ev = o2.value if o2.ok else [dict(k="failed", why="unreadable: " + str(o2.exc))]
            else:
                ev = [dict(k="failed", why=str(o.exc))]
            traces.append(dict(pages=json.dumps(pages), opt=json.dumps([opt, popt]), eps=eps, ev=ev))
        res = ctx.model_check("DocMC", constants=dict(N=len(ITEMS), MaxPages=2, MaxUses=2), invariants=["Sound", "Emit"], label="all documents of up to two pages with up to two resources each", heap="8g")
        docs = [json.loads(p[1:]) for p in res.prints]
        n = ctx.n(350, 5000)
        for d in (r.sample(docs, n) if len(docs) > n else docs):
            pages = [[ITEMS[i - 1] for i in p] for p in d]
            eps = len(pages) == 1 and r.random() < 0.5
            trace(pages, options(r, eps), pageoptions(r, len(pages)), eps)
        pool = docgen.Pool()
        for i in range(ctx.n(350, 4000)):
            eps = i % 3 == 1
            g = docgen.Gen(r, "eps" if eps else "ps", list(files))
            pages = [g.page() for _ in range(1 if eps else r.choice([0, 1, 2, 3, 5]))]
            trace(pages, options(r, eps), pageoptions(r, len(pages)), eps, pool if i % 4 == 0 else None)
    finally:
        shutil.rmtree(scratch)

    def key(t, l, why):
        e = t["ev"][l - 1]
        extra = e.get("op", "") or e.get("why", "")[:80] or e.get("key", "")
        return "ps:%s:%s" % (why, extra)

    def describe(t, l, why):
        return "%s: %s; document %s options %s" % (why, json.dumps(t["ev"][l - 1])[:300], t["pages"][:400], t["opt"])
    ctx.validate("PSTrace", traces, key=key, describe=describe, heap="12g", chunk=200)
    ctx.sample({"document": traces[-1]["pages"]})
