"""O08: SVG files are well-formed and self-contained (spec/SVGDoc.tla, SVGTrace.tla, DocMC.tla)."""
import io, json, os, shutil, tempfile
from vp import guard
import docgen, svgdoc

FILES = {"a.svg": '<?xml version="1.0"?>\n<svg xmlns="http://www.w3.org/2000/svg" width="20" height="10" viewBox="0 0 20 10"><!-- c --><g fill="red"><path d="M0 0L5 5"/></g></svg>',
         "b.svg": '<?xml version="1.0"?>\n<s:svg xmlns:s="http://www.w3.org/2000/svg" xmlns:xlink="http://www.w3.org/1999/xlink" width="20" height="10"><s:g id="q"><s:path d="M0 0L5 5"/></s:g></s:svg>',
         "c.svg": '<?xml version="1.0"?>\n<svg xmlns="http://www.w3.org/2000/svg" xmlns:o="urn:o" width="20pt" height="10pt"><o:x y="1">a &lt; b</o:x><path o:k="&amp;" d="M0 0L5 5"/></svg>'}


def shown(items, opacity=1000):
    res = []
    for it in items:
        if it["kind"] == "text":
            g = docgen.shown([it])[0]
            res.append([g[0], g[1], opacity, int(round(1000 * it.get("opts", {}).get("slant", 0))), g[2:]])
        elif it["kind"] == "group":
            op = [a for a in it["attrs"] if a.startswith("op")]
            res += shown(it["items"], int(op[-1][2:]) * 100 if op else opacity)
    return res


def write(items, opt, pool):
    from pyx import canvas, document
    c = docgen.place(canvas.canvas(), items, pool or docgen.Pool())
    b = io.BytesIO()
    document.document([document.page(c)]).writeSVGfile(b, **opt)
    return b.getvalue()


def record(data, items, opt):
    ev = svgdoc.read(data)
    u = docgen.uses(items, "svg")
    plain = not any(it["kind"] == "tex" for it in items)
    ev.append(dict(k="finish", images=[w for o, w in u if o == "Do"], patterns=[w for o, w in u if o == "scn"], checkpatterns=True,
                   texts=not opt.get("text_as_path", opt.get("textaspath", True)), shown=shown(items)))
    return ev


ITEMS = [dict(kind="image", i=0), dict(kind="image", i=3), dict(kind="pattern", i=2), dict(kind="pattern", i=5), dict(kind="pattern", i=6), dict(kind="group", attrs=["clip"], items=[dict(kind="plain", v=1)]),
         dict(kind="text", f=2, s="fi(", opts=dict(ligatures=True)), dict(kind="text", f=0, s="A\u00e9"), dict(kind="group", attrs=["op0"], items=[dict(kind="text", f=0, s="b", opts=dict(slant=0.25))]),
         dict(kind="svg", name="b.svg"), dict(kind="pattern", i=0)]


def notex(items):
    return [dict(it, items=notex(it["items"])) if it["kind"] == "group" else it for it in items if it["kind"] != "tex"]


def run(ctx):
    r = ctx.rng
    traces = []
    scratch = tempfile.mkdtemp()
    try:
        files = []
        for n, data in sorted(FILES.items()):
            p = os.path.join(scratch, n)
            with open(p, "w", encoding="utf-8") as f:
                f.write(data)
            files.append(p)

        def named(items):
            return [dict(it, name=os.path.join(scratch, os.path.basename(it["name"]))) if it["kind"] == "svg" else it for it in items]

        def trace(items, opt, pool=None):
            if not opt.get("text_as_path", opt.get("textaspath", True)):
                items = notex(items)
            o = guard(write, named(items), opt, pool, seconds=60)
            if o.ok:
                o2 = guard(record, o.value, items, opt, seconds=60)
                ev = o2.value if o2.ok else [dict(k="failed", why="unreadable: " + str(o2.exc))]
            else:
                ev = [dict(k="failed", why=str(o.exc))]
            traces.append(dict(items=json.dumps(items), opt=json.dumps(opt), ev=ev))
        res = ctx.model_check("DocMC", constants=dict(N=len(ITEMS), MaxPages=1, MaxUses=ctx.n(3, 4)), invariants=["Sound", "Emit"], label="all pages with up to three (thorough: four) resources", heap="8g")
        docs = [json.loads(p[1:]) for p in res.prints]
        n = ctx.n(700, 8000)
        for d in (r.sample(docs, n) if len(docs) > n else docs):
            trace([ITEMS[i - 1] for i in d[0]], r.choice([{}, dict(textaspath=False), dict(textaspath=False)]))
        pool = docgen.Pool()
        for i in range(ctx.n(400, 5000)):
            g = docgen.Gen(r, "svg", files)
            trace(g.page() + g.page(), r.choice([{}, dict(textaspath=False), dict(textaspath=False), dict(text_as_path=False), dict(mesh_as_bitmap_resolution=50)]), pool if i % 4 == 0 else None)
    finally:
        shutil.rmtree(scratch)

    def key(t, l, why):
        e = t["ev"][l - 1]
        extra = e.get("why", "")[:80] or e.get("name", "") + ("-" + ",".join(e["bad"]) if e.get("bad") else "")
        return "svg:%s:%s" % (why, extra)

    def describe(t, l, why):
        return "%s: %s; page %s options %s" % (why, json.dumps(t["ev"][l - 1])[:300], t["items"][:400], t["opt"])
    ctx.validate("SVGTrace", traces, key=key, describe=describe, heap="12g", chunk=400)
    ctx.sample({"page": traces[-1]["items"]})
