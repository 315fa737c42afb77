"""I01: the bounding box of an included EPS file and its placement (spec/EPSFile.tla, EPSFileMC.tla)."""
import io, json, math, os, re, shutil, tempfile
import psread
from psstate import mul
from vp import guard

BUFFER = 257            # lines are tried around multiples of the usual length of a read


def payload(r, eol):
    fakes = [b"%%Trailer", b"%%BoundingBox: 7 7 9 9", b"%%EndDocument", b"%%EndComments", b"0 setgray", b"%%EOF", b"%%BeginDocument: x"]
    lines = [r.choice(fakes) if r.random() < 0.6 else bytes(r.randrange(33, 127) for _ in range(r.choice([1, 5, 300]))) for _ in range(r.randint(0, 3))]
    return b"".join(l + eol for l in lines), len(lines)


def render(r, lines, boxes):
    """the bytes of a file of such lines"""
    eols = [r.choice([b"\n", b"\r", b"\r\n"])] if r.random() < 0.7 else [b"\n", b"\r", b"\r\n"]
    out = b""
    phase = "start"
    for i, l in enumerate(lines):
        eol = r.choice(eols)
        k = l["k"]
        if k == "magic":
            t = r.choice([b"%!", b"%!PS-Adobe-3.0 EPSF-3.0", b"%!PS-Adobe-2.0"])
        elif k == "bb":
            b = boxes[l["b"] - 1]
            num = lambda v: (b"%.1f" % v if phase == "trailer" and r.random() < 0.3 else b"%d" % v)
            t = b"%%BoundingBox:" + r.choice([b" ", b"", b"  ", b"\t"]) + r.choice([b" ", b"  "]).join(map(num, b)) + r.choice([b"", b" "])
        elif k == "bad":
            t = b"%%BoundingBox:" + r.choice([b" 1 2 3", b" 1 2 3 4 5", b" 1 2 3 x", b""])
        elif k == "atend":
            t = r.choice([b"%%BoundingBox: (atend)", b"%%BoundingBox:(atend)", b"%%BoundingBox: (atend) "])
        elif k == "comment":
            t = r.choice([b"%%Title: %%BoundingBox: 1 1 2 2", b"%%HiResBoundingBox: 1 1 2 2", b"%%Pages: 1", b"%%CropBox: 0 0 1 1", b"%%BoundingBoxes: 1 1 2 2", b"%%+ more", b"%%DocumentFonts: (atend)", b"%%Trailers", b"%%EndCommentsX"])
        elif k == "endcomments":
            t = r.choice([b"%%EndComments", b"%%EndComments "])
        elif k == "code":
            t = r.choice([b"0 setgray", b"newpath", b"/x 1 def", b"[ 1 ]", b"1 0 0 setrgbcolor % %%BoundingBox: 1 1 1 1", b"(%%Trailer) pop"])
        elif k == "plain":
            t = r.choice([b"% %%BoundingBox: 1 1 2 2", b"%", b"% text", b"%!PS"]) if i else r.choice([b"% text", b"% %!PS", b" %!PS", b"%%!PS"])
        elif k == "doc":
            t = r.choice([b"%%BeginDocument: name", b"%%BeginDocument: (a b)"])
        elif k == "enddoc":
            t = b"%%EndDocument"
        elif k == "trailer":
            t = r.choice([b"%%Trailer", b"%%Trailer "])
        else:
            data, n = payload(r, eol)
            mode = r.randrange(4)
            if mode == 0:
                t = b"%%%%BeginData: %d ASCII Lines" % n + eol + data + b"%%EndData"
            elif mode < 3:
                data = data or b"x"
                data += bytes(r.randrange(256) for _ in range(r.choice([0, 1, 400])))
                if r.random() < 0.5:
                    data = data.rstrip() + b"z"
                t = r.choice([b"%%%%BeginData: %d", b"%%%%BeginData: %d Binary Bytes"]) % len(data) + eol + data + r.choice([b"", eol]) + b"%%EndData"
            else:
                data = (data or b"x") + bytes(r.randrange(256) for _ in range(r.choice([0, 1, 400])))
                t = b"%%%%BeginBinary: %d" % len(data) + eol + data + r.choice([b"", eol]) + b"%%EndBinary"
        if i and r.random() < 0.3:
            # fill up so that the end of the line is at the end of a read
            first = re.split(rb"[\r\n]", t)[0]
            n = BUFFER * r.randint(1, 2) - (len(out) + 2 + len(eol) + len(first)) % BUFFER + r.choice([-1, 0, 0, 1, 2])
            if n > 0:
                out += (b"%%" if phase == "header" else b"% ") + b"x" * n + eol
        if not i:
            phase = "header"
        elif phase == "header" and k in ("endcomments", "code"):
            phase = "body"
        elif k == "trailer":
            phase = "trailer"
        out += t + (eol if i < len(lines) - 1 or r.random() < 0.7 else b"")
    return out


def box(e):
    b = e.bbox()
    return [b.llx_pt, b.lly_pt, b.urx_pt, b.ury_pt]


def near(a, b, eps=1e-3):
    return len(a) == len(b) and all(abs(x - y) < eps for x, y in zip(a, b))


def scan(ctx, tmp, cases):
    from pyx import epsfile
    r = ctx.rng
    n = ctx.n(30000, 100000)
    if len(cases) > n:
        # every body with some header
        r.shuffle(cases)
        body = {}
        for c in cases:
            k = [l["k"] for l in c["lines"]]
            body.setdefault(tuple(k[next((i for i, x in enumerate(k) if x in ("code", "endcomments")), 0):]), c)
        first = list(body.values())[:n]
        cases = first + cases[:n - len(first)]
        ctx.note(bodies=len(body))
    for c in cases * 2:
        boxes = []
        for _ in range(8):
            x, y = r.randint(-300, 900), r.randint(-300, 900)
            boxes.append([x, y, x + r.randint(1, 700), y + r.randint(1, 700)])
        src = render(r, c["lines"], boxes)
        name = os.path.join(tmp, "a.eps")
        with open(name, "wb") as f:
            f.write(src)
        ctx.traces += 1
        o = guard(lambda: box(epsfile.epsfile(0, 0, name, translatebbox=0)))
        kinds = " ".join(l["k"] for l in c["lines"])
        if c["box"]:
            want = boxes[c["box"] - 1]
            how = "header" if "atend" not in kinds.split(" bb")[0] else "trailer"
            if not o.ok:
                ctx.violation("refused:%s:%s" % (how, o.exc[:60]), "the file %r declares %s but %s" % (src[:300], want, o.exc), dict(case=c))
            elif not near(o.value, want):
                ctx.violation("box:%s" % how, "the file %r declares %s but %s is used" % (src[:300], want, o.value), dict(case=c))
        elif o.ok:
            ctx.violation("accepted:%s" % kinds[:60], "the file %r declares no bounding box but %s is used" % (src[:300], o.value), dict(case=c))
        elif "Error" not in o.exc or o.exc.startswith(("TypeError", "AttributeError", "NameError", "IndexError")):
            ctx.violation("error:%s" % o.exc[:60], "the file %r declares no bounding box: %s" % (src[:300], o.exc), dict(case=c))
    ctx.sample({"case": cases[len(cases) // 2]}, 2)


NUM = rb"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?"


def included(data):
    """for every embedded document: the transformation and clip boxes (in page coordinates) in front of it, and its bytes"""
    res = []
    pos = 0
    stack, m, clips = [], (1.0, 0.0, 0.0, 1.0, 0.0, 0.0), []
    ops = psread.ops
    body = data[data.index(b"%%EndPageSetup"):] if b"%%EndPageSetup" in data else data[data.index(b"%%EndProlog"):]
    while True:
        i = body.find(b"%%BeginDocument:", pos)
        head = body[pos:i if i >= 0 else len(body)]
        for op, args in ops(head):
            a = [x for x in args if isinstance(x, (int, float))]
            if op in ("gsave", "BeginEPSF"):
                stack.append((m, list(clips)))
            elif op in ("grestore", "EndEPSF"):
                m, clips = stack.pop()
            elif op == "concat":
                a = next(x for x in args if isinstance(x, (list, tuple)))
                m = mul(m, tuple(a))
            elif op == "translate":
                m = mul(m, (1, 0, 0, 1, a[0], a[1]))
            elif op == "scale":
                m = mul(m, (a[0], 0, 0, a[1], 0, 0))
            elif op == "rectclip":
                clips.append((m, a))
        if i < 0:
            return res
        start = min(x for x in (body.find(b"\n", i), body.find(b"\r", i)) if x >= 0) + 1
        end = body.index(b"%%EndDocument", start)
        res.append((m, list(clips), body[start:end]))
        pos = end + len(b"%%EndDocument")


def place(ctx, tmp, cases):
    from pyx import epsfile, canvas, trafo, bbox
    r = ctx.rng
    n = ctx.n(1200, 6000)
    if len(cases) > n:
        cases = r.sample(cases, n)
    fr = lambda f: f[0] / f[1]
    name = os.path.join(tmp, "p.eps")
    for i, c in enumerate(cases):
        p = c["p"]
        own = i % 3 == 0          # the box is given by the user instead
        inside = [3, 4, 5, 6] if own else c["b"]
        content = b"%%!PS-Adobe-3.0 EPSF-3.0\n%%%%BoundingBox: %d %d %d %d\n0 0 moveto %d 5 lineto stroke" % (*inside, i) + r.choice([b"", b"\n", b"\r", b"\n%%EOF\n"])
        with open(name, "wb") as f:
            f.write(content)
        kw = dict(align=p["va"] + p["ha"], translatebbox=int(p["tb"]), clip=i % 2)
        from pyx import unit
        for a, b in (("w", "width"), ("h", "height")):
            if p[a]:
                kw[b] = fr(p[a]) * unit.t_pt
        if p["s"]:
            kw["scale"] = fr(p["s"])
        if own:
            kw["bbox"] = bbox.bbox_pt(*c["b"])
        ctx.traces += 1
        o = guard(lambda: epsfile.epsfile(fr(p["x"]) * unit.t_pt, fr(p["y"]) * unit.t_pt, name, **kw))
        desc = "a file with box %s included by %s" % (inside, {k: str(v) for k, v in kw.items()})
        if c["bad"]:
            if o.ok:
                ctx.violation("place:both-accepted", "%s is accepted" % desc, c)
            continue
        if not o.ok:
            ctx.violation("place:refused:%s" % o.exc[:60], "%s fails: %s" % (desc, o.exc), c)
            continue
        sx, sy, tx, ty = map(fr, c["m"])
        want = [sx * c["b"][0] + tx, sy * c["b"][1] + ty, sx * c["b"][2] + tx, sy * c["b"][3] + ty]
        if not near(box(o.value), want):
            ctx.violation("place:bbox", "%s: box %s instead of %s" % (desc, box(o.value), want), c)
            continue
        # in the output: the map, the clip and the content itself, below another transformation and twice
        outer = r.choice([trafo.identity, trafo.scale(2, 3), trafo.rotate(90), trafo.translate_pt(10, -5)])
        cv = canvas.canvas()
        cv.insert(o.value, [outer])
        cv.insert(o.value)
        s = io.BytesIO()
        g = guard(lambda: cv.writeEPSfile(s, page_bboxenlarge=0))
        if not g.ok:
            ctx.violation("place:output:%s" % g.exc[:60], "%s: writing fails: %s" % (desc, g.exc), c)
            continue
        docs = included(s.getvalue())
        om = (outer.matrix[0][0], outer.matrix[1][0], outer.matrix[0][1], outer.matrix[1][1], outer.vector_pt[0], outer.vector_pt[1]) if hasattr(outer, "vector_pt") else None
        if om is None:
            pts = [outer.apply_pt(*q) for q in ((0, 0), (1, 0), (0, 1))]
            om = (pts[1][0] - pts[0][0], pts[1][1] - pts[0][1], pts[2][0] - pts[0][0], pts[2][1] - pts[0][1], pts[0][0], pts[0][1])
        if len(docs) != 2:
            ctx.violation("place:documents", "%s: %d documents in the output" % (desc, len(docs)), c)
            continue
        # what is declared for the output encloses both
        hi = [float(x) for x in re.search(rb"%%HiResBoundingBox: (.*)", s.getvalue()).group(1).split()]
        pts = [(w[0] * x + w[2] * y + w[4], w[1] * x + w[3] * y + w[5]) for w in (om, (1, 0, 0, 1, 0, 0)) for x in (want[0], want[2]) for y in (want[1], want[3])]
        exp = [min(q[0] for q in pts), min(q[1] for q in pts), max(q[0] for q in pts), max(q[1] for q in pts)]
        if not near(hi, exp, 5e-2):
            ctx.violation("place:page-box", "%s: the output declares %s instead of %s" % (desc, hi, exp), c)
        for (m, clips, data), w in zip(docs, (om, (1, 0, 0, 1, 0, 0))):
            wm = mul(w, (sx, 0, 0, sy, tx, ty))
            if not near(m, wm, 2e-2):
                ctx.violation("place:map", "%s: the file is placed by %s instead of %s" % (desc, m, wm), c)
            if data.rstrip() != content.rstrip():
                ctx.violation("place:content", "%s: content %r instead of %r" % (desc, data, content), c)
            if bool(clips) != bool(kw["clip"]):
                ctx.violation("place:clip", "%s: %d clips" % (desc, len(clips)), c)
            for cm, a in clips:
                corners = lambda mm, l: sorted((round(mm[0] * x + mm[2] * y + mm[4], 2), round(mm[1] * x + mm[3] * y + mm[5], 2)) for x in (l[0], l[2]) for y in (l[1], l[3]))
                got = corners(cm, [a[0], a[1], a[0] + a[2], a[1] + a[3]])
                exp = corners(w, want)
                if not all(near(g, e, 5e-2) for g, e in zip(got, exp)):
                    ctx.violation("place:clip-box", "%s: clipped to %s instead of %s" % (desc, got, exp), c)
    ctx.sample({"case": cases[len(cases) // 2]}, 3)


def bitmap(ctx, tmp, cases):
    """PDF contains a picture of the file: it covers the placed box"""
    from pyx import epsfile, canvas, unit
    r = ctx.rng
    if not shutil.which("gs"):
        ctx.note(bitmap="no gs")
        return
    fr = lambda f: f[0] / f[1]
    name = os.path.join(tmp, "q.eps")
    for c in r.sample([c for c in cases if not c["bad"]], ctx.n(4, 30)):
        p = c["p"]
        b = c["b"]
        with open(name, "wb") as f:
            f.write(b"%%!PS-Adobe-3.0 EPSF-3.0\n%%%%BoundingBox: %d %d %d %d\n%d %d moveto %d %d lineto %d %d lineto fill" % (*b, b[0], b[1], b[2], b[1], b[2], b[3]))
        kw = dict(align=p["va"] + p["ha"], translatebbox=int(p["tb"]))
        for x, y in (("w", "width"), ("h", "height")):
            if p[x]:
                kw[y] = fr(p[x]) * unit.t_pt
        if p["s"]:
            kw["scale"] = fr(p["s"])
        ctx.traces += 1

        def do():
            cv = canvas.canvas()
            cv.insert(epsfile.epsfile(fr(p["x"]) * unit.t_pt, fr(p["y"]) * unit.t_pt, name, **kw))
            s = io.BytesIO()
            cv.writePDFfile(s, write_compress=False)
            return s.getvalue()
        o = guard(do)
        sx, sy, tx, ty = map(fr, c["m"])
        want = [sx * b[0] + tx, sy * b[1] + ty, sx * b[2] + tx, sy * b[3] + ty]
        if not o.ok:
            ctx.violation("bitmap:%s" % o.exc[:60], "a file with box %s included in PDF by %s fails: %s" % (b, kw, o.exc), c)
            continue
        m = re.search(rb"(%s) 0 0 (%s) (%s) (%s) cm\s+/\S+ Do" % ((NUM,) * 4), o.value)
        m = m or re.search(rb"(%s) (?:0\.0*|0) (?:0\.0*|0) (%s) (%s) (%s) cm\s+/\S+ Do" % ((NUM,) * 4), o.value)
        if not m:
            ctx.violation("bitmap:missing", "a file with box %s included in PDF by %s is not painted: %r" % (b, kw, o.value[:2000]), c)
            continue
        w, h, x, y = map(float, m.groups())
        # the picture may have a small border around
        if not near([2 * x + w, 2 * y + h], [want[0] + want[2], want[1] + want[3]], 0.5) or not near([x, y, x + w, y + h], want, 1.2):
            ctx.violation("bitmap:place", "a file with box %s included in PDF by %s covers %s instead of %s" % (b, {k: str(v) for k, v in kw.items()}, [x, y, x + w, y + h], want), c)


def run(ctx):
    r = ctx.model_check("EPSFileMC", constants=dict(MaxHead=2, MaxBody=4, MaxTrail=ctx.n(1, 2)), invariants=["OneCounts", "Sizes2", "Emit"], label="all files and placements", heap="8g")
    cases = [json.loads(p[1:]) for p in r.prints]
    tmp = tempfile.mkdtemp(prefix="verif-i01-")
    try:
        scan(ctx, tmp, [c for c in cases if c["k"] == "scan" and c["lines"]])
        place(ctx, tmp, [c for c in cases if c["k"] == "place"])
        bitmap(ctx, tmp, [c for c in cases if c["k"] == "place"])
    finally:
        shutil.rmtree(tmp)
