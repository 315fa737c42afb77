"""O09: pages place their content on the paper (spec/Page.tla, PageMC.tla): every combination of page options replayed into real documents."""
import io, json, re
from vp import guard
import paints, pdfread, psread, psstate

fl = lambda f: f[0] / f[1]


def page(o, r, name=None):
    from pyx import bbox, canvas, color, document, path, unit, deco, trafo
    pt = lambda v: v * unit.t_pt
    l, b, rr, t = o["box"]
    c = canvas.canvas()
    tri = path.path(path.moveto_pt(l, b), path.lineto_pt(rr, b), path.lineto_pt(l, t), path.closepath())
    how = r.randrange(3)
    if how == 0:
        c.fill(tri, [color.rgb.red])
    elif how == 1:
        d = canvas.canvas([trafo.translate_pt(l, b)])
        d.fill(path.path(path.moveto_pt(0, 0), path.lineto_pt(rr - l, 0), path.lineto_pt(0, t - b), path.closepath()), [color.rgb.red])
        c.insert(d)
    else:
        c.layer("x").fill(tri, [color.rgb.red])
    kw = {}
    if o["paper"]:
        kw["paperformat"] = document.paperformat(pt(o["paper"][0]), pt(o["paper"][1]), "mine")
    if o["given"]:
        kw["bbox"] = bbox.bbox_pt(*o["given"])
    if o["rot"] or r.random() < 0.5:
        kw["rotated"] = r.choice([1, True]) if o["rot"] else r.choice([0, False])
    if not o["cen"] or r.random() < 0.5:
        kw["centered"] = 1 if o["cen"] else 0
    if o["fit"] or r.random() < 0.5:
        kw["fittosize"] = 1 if o["fit"] else 0
    if o["enl"] != 1 or r.random() < 0.5:
        kw["bboxenlarge"] = pt(o["enl"])
    kw["margin"] = pt(o["margin"])
    p = document.page(c, name, **kw)
    p.check_given = kw.get("bbox")
    return p


def triangle(ps):
    """the corners painted by the (only) red fill"""
    ps = [p for p in ps if p["op"] == "fill"]
    if len(ps) != 1:
        return None
    pts = [q for k, qs in ps[0]["d"] for q in qs]
    return pts[:3]


def pspage(data):
    res = []
    for op, d, gs in psstate.paints(data):
        res.append(dict(op="fill" if op != "stroke" else op, d=d))
    return res


def near(p, q, tol=2e-3):
    return p is not None and len(p) == len(q) and all(abs(a - b) <= tol + 2e-6 * abs(b) for a, b in zip(p, q))


def judge(ctx, c, where, tri, box=None, low=None, extra=""):
    want = [[fl(x) for x in p] for p in c["pts"]]
    if tri is None or not all(near(p, q) for p, q in zip(tri, want)):
        ctx.violation("place:%s" % where, "%s: page %r puts the corners of its content at %r instead of %r" % (where, c["o"], tri, want), c)
    wbox = [fl(x) for x in c["box"]]
    if box is not None and not near(box, wbox, 1e-3 + 1e-5 * max(abs(x) for x in wbox)):   # %g has six digits
        ctx.violation("box:%s" % where, "%s: page %r declares the box %r instead of %r" % (where, c["o"], box, wbox), c)
    if low is not None and not all(abs(a - b) < 1e-9 or (abs(w - round(w)) < 1e-6 and abs(a - w) < 1.01) for a, b, w in zip(low, c["out"], wbox)):
        ctx.violation("lowbox:%s" % where, "%s: page %r declares the rounded box %r instead of %r" % (where, c["o"], low, c["out"]), c)


def refused(ctx, c, o, where):
    if c["refused"] and (o.ok or not str(o.exc).startswith("ValueError")):
        ctx.violation("refusal:%s" % where, "%s: page %r with margins broader than the paper %s" % (where, c["o"], "is written" if o.ok else "fails with %r" % o.exc), c)
    elif not c["refused"] and not o.ok:
        ctx.violation("refused:%s" % where, "%s: page %r fails: %r" % (where, c["o"], o.exc), c)
    return c["refused"] or not o.ok


def single(ctx, c, r):
    from pyx import document
    def write(kind, **kw):
        f = io.BytesIO()
        p = page(c["o"], r)
        getattr(document.document([p]), "write%sfile" % kind)(f, **kw)
        if p.check_given is not None and list(p.check_given.highrestuple_pt()) != [float(x) for x in c["o"]["given"]]:
            ctx.violation("given-changed", "writing the page %r changed the box given to %r" % (c["o"], p.check_given.highrestuple_pt()), c)
        return f.getvalue()
    o = guard(write, "EPS")
    if not refused(ctx, c, o, "EPS"):
        f = psread.PSFile(o.value)
        judge(ctx, c, "EPS", triangle(paints.ps(o.value)), [float(x) for x in f.comment("HiResBoundingBox")[0].split()], [int(x) for x in f.comment("BoundingBox")[0].split()])
    o = guard(write, "SVG")
    if not refused(ctx, c, o, "SVG"):
        m = re.search(rb"<svg[^>]*>", o.value).group(0).decode()
        x, y, w, h = [float(v) for v in re.search(r'viewBox="([^"]*)"', m).group(1).split()]
        judge(ctx, c, "SVG", triangle(paints.svg(o.value)), [x, -y - h, x + w, -y])
        at = [float(re.search(r'\b%s="([^"]*)pt"' % k, m).group(1)) for k in ("x", "y", "width", "height")]
        if not near(at, [x, y, w, h]):
            ctx.violation("svgsize", "page %r: viewBox %r but position and size %r" % (c["o"], (x, y, w, h), at), c)


def several(ctx, cs, r, n):
    """pages of one document keep their own placing"""
    from pyx import document
    bad = any(c["refused"] for c in cs)
    writebbox = n % 2 == 0
    def write(kind, **kw):
        f = io.BytesIO()
        ps = [page(c["o"], r, None if i % 2 else "p%d" % i) for i, c in enumerate(cs)]
        d = document.document(ps[:1]) if n % 3 else document.document()
        for p in ps[1 if n % 3 else 0:]:
            d.append(p)
        getattr(d, "write%sfile" % kind)(f, **kw)
        return f.getvalue()
    both = dict(refused=bad, o=[c["o"] for c in cs])
    o = guard(write, "PDF", compress=False, writebbox=writebbox)
    if not refused(ctx, both, o, "PDF"):
        f = pdfread.PDFFile(o.value)
        pages = f.pages()
        if len(pages) != len(cs):
            ctx.violation("pages:PDF", "%d pages instead of %d" % (len(pages), len(cs)), both)
            return
        for i, (c, p) in enumerate(zip(cs, pages)):
            media = [float(x) for x in f.get(p["MediaBox"])]
            judge(ctx, c, "PDF", triangle(paints.pdf(o.value, i)), media if not c["o"]["paper"] else None)
            if c["o"]["paper"] and not near(media, [0, 0] + c["o"]["paper"]):
                ctx.violation("media", "page %r has the media box %r" % (c["o"], media), c)
            if ("CropBox" in p) != writebbox:
                ctx.violation("crop", "page %r: writebbox=%r but CropBox %r" % (c["o"], writebbox, p.get("CropBox")), c)
            elif writebbox:
                judge(ctx, c, "PDF CropBox", triangle(paints.pdf(o.value, i)), [float(x) for x in f.get(p["CropBox"])])
            if bool(p.get("Rotate", 0)) != bool(c["o"]["rot"]) or p.get("Rotate", 90) != 90:
                ctx.violation("rotate", "page %r has Rotate %r" % (c["o"], p.get("Rotate")), c)
    o = guard(write, "PS", writebbox=writebbox)
    if not refused(ctx, both, o, "PS"):
        f = psread.PSFile(o.value)
        if len(f.pages) != len(cs):
            ctx.violation("pages:PS", "%d pages instead of %d" % (len(f.pages), len(cs)), both)
            return
        for i, (c, p) in enumerate(zip(cs, f.pages)):
            t = p.decode("latin1")
            want = "%%%%Page: %s %d\n" % (str(i + 1) if i % 2 else "p%d" % i, i + 1)
            if not t.startswith(want):
                ctx.violation("page-comment", "page %d starts with %r instead of %r" % (i + 1, t[:40], want), both)
            b = re.search(r"^%%PageBoundingBox: (.*)$", t, re.M)
            if bool(b) != writebbox:
                ctx.violation("page-bbox", "page %r: writebbox=%r but PageBoundingBox %r" % (c["o"], writebbox, b and b.group(0)), c)
            judge(ctx, c, "PS", triangle(pspage(p)), None, [int(x) for x in b.group(1).split()] if b else None)
            if ("Landscape" in t) != bool(c["o"]["rot"]) or ("Portrait" in t) == bool(c["o"]["rot"]):
                ctx.violation("orientation", "page %r: %r" % (c["o"], re.findall(r"%%PageOrientation.*", t)), c)
        docbox = f.comment("BoundingBox")
        if writebbox:
            want = [min(c["out"][0] for c in cs), min(c["out"][1] for c in cs), max(c["out"][2] for c in cs), max(c["out"][3] for c in cs)]
            got = [int(x) for x in docbox[0].split()] if docbox else None
            if got is None or not all(abs(a - b) <= 1 for a, b in zip(got, want)):
                ctx.violation("document-bbox", "document of %r has the box %r instead of %r" % ([c["o"] for c in cs], got, want), both)
        elif docbox:
            ctx.violation("document-bbox", "writebbox off but %r" % docbox, both)


def formats(ctx):
    """the documented paper formats (table in spec/Page.tla)"""
    from pyx import document, unit
    tab = json.loads(ctx.model_check("FormatMC", label="paper formats", invariants=["Emit"]).prints[0][1:])
    for name, (w, h) in tab.items():
        ctx.traces += 1
        u = 72 / 254.0 if name not in ("Letter", "Legal") else 7.2
        want = [w * u, h * u]
        o = guard(lambda: [unit.topt(getattr(document.paperformat, name).width), unit.topt(getattr(document.paperformat, name).height)])
        if not o.ok or not near(o.value, want):
            ctx.violation("format:" + name, "paper format %s is %r instead of %r pt" % (name, o, want))


def run(ctx):
    r = ctx.rng
    formats(ctx)
    sets = [dict(Margins="= {0, 10, 40}", Enls="= {0, 1, 7}", Boxes="<- Boxes1", Papers="<- Papers1", Givens="<- Givens1"),
            dict(Margins="= {1, 28, 51}", Enls="= {1, 20}", Boxes="<- Boxes2", Papers="<- Papers2", Givens="<- Givens2")]
    for s in sets:
        res = ctx.model_check("PageMC", raw=s, invariants=["Fits", "Centred", "Similar", "Still", "Emit"], label="all combinations of page options")
        cases = [json.loads(p[1:]) for p in res.prints]
        if len(cases) > ctx.n(1500, 10 ** 6):
            cases = r.sample(cases, ctx.n(1500, 10 ** 6))
        good = [c for c in cases if not c["refused"]]
        for n, c in enumerate(cases):
            ctx.traces += 1
            single(ctx, c, r)
            if n % 2 == 0:
                several(ctx, [c] + r.sample(good, r.randrange(3)), r, n // 2)
        ctx.sample({"page": cases[len(cases) // 2]}, 3)
