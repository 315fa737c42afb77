"""P01: path construction (spec/PathBuild.tla, PathMC.tla, PathTrace.tla)."""
import io, json
from pathread import read_ps, read_pdf, read_svg, read_norm, el
from scenes import q, BAD
from vp import guard


def run(ctx):
    from pyx import path, unit, canvas, normpath
    rng = ctx.rng
    r = ctx.model_check("PathMC", constants=dict(MaxLen=3, From=1), invariants=["Connected", "CurrentPoint", "Refused", "Emit"],
                        label="all element sequences over 18 elements")
    seqs = [json.loads(p[1:]) for p in r.prints]
    if not ctx.quick:
        r = ctx.model_check("PathMC", constants=dict(MaxLen=4, From=5), invariants=["Connected", "CurrentPoint", "Refused"],
                            label="longer sequences")

    def item(e, u):
        f = 1 * unit.t_pt if u else 1
        a = [v for p in e["a"] for v in p]
        o = e["o"]
        s = "" if u else "_pt"
        if o == "Z":
            return path.closepath()
        if o == "ml":
            return path.multilineto_pt([tuple(p) for p in e["a"]])
        if o == "mc":
            return path.multicurveto_pt([tuple(a[i:i + 6]) for i in range(0, len(a), 6)])
        c = [v * f for v in a]
        if o in ("arc", "arcn"):
            return getattr(path, o + s)(*c, e["r"] * f, 90 * e["n"][0], 90 * e["n"][1])
        if o == "arct":
            return getattr(path, o + s)(*c, e["r"] * f)
        return getattr(path, {"M": "moveto", "L": "lineto", "C": "curveto", "m": "rmoveto", "l": "rlineto", "c": "rcurveto"}[o] + s)(*c)

    def make(es, how, u):
        items = [item(e, u) for e in es]
        if how == 0:
            return path.path(*items)
        if how == 1:
            p = path.path()
            for i in items:
                p.append(i)
            return p
        if how == 2:
            k = rng.randint(0, len(items))
            p = path.path(*items[:k])
            if k:
                guard(p.normpath)      # an earlier use must not stick
            p.extend(items[k:])
            return p
        k = rng.randint(1, len(items))
        p = path.path(*items[:k])
        x = path.path(*items[k:])
        guard(p.normpath)
        if how == 3:
            return p + x
        p += x
        return p

    class F:
        def __init__(self):
            self.s = []

        def write(self, s):
            self.s.append(s)

    def ps(p):
        f = F()
        p.outputPS(f, None)
        return read_ps("".join(f.s))

    def pdf(p):
        f = F()
        p.outputPDF(f, None)
        return read_pdf("".join(f.s))

    def box(b):
        return [q(v, 1) for v in b.highrestuple_pt()] if b else []

    bad = [el("bad")]

    def record(es):
        e = dict(es=es, ps=[], pdf=[], svg=[], glyph=[], norm=[], normps=[], normpdf=[], normsvg=[], round=[], bbox=[], nbbox=[], end=[])
        p = make(es, rng.randint(0, 4), rng.random() < 0.3)
        if es[0]["o"] not in ("M", "arc", "arcn"):
            def write(m):
                c = canvas.canvas()
                c.stroke(p)
                f = io.BytesIO()
                getattr(c, m)(f)
            e["refused"] = [guard(write, m).kind == "exc" for m in ("writeEPSfile", "writePDFfile", "writeSVGfile")] + \
                           [guard(p.normpath).kind == "exc", guard(p.bbox).kind == "exc"]
            return e
        o = {}

        def get(name, f, *a):
            x = guard(f, *a)
            o[name] = x.ok
            e[name] = x.value if x.ok else bad
        get("ps", ps, p)
        get("pdf", pdf, p)
        get("svg", lambda: read_svg(p.returnSVGdata()))
        arcs = any(x["o"] in ("arc", "arcn", "arct") for x in es)
        get("glyph", lambda: read_svg(p.returnSVGdata(not True), False) if not arcs else e["svg"])
        np = guard(p.normpath)
        if np.ok:
            np = np.value
            get("norm", read_norm, np)
            get("normps", ps, np)
            get("normpdf", pdf, np)
            get("normsvg", lambda: read_svg(np.returnSVGdata()))
            get("round", lambda: read_norm(np.path().normpath()))
            get("bbox", lambda: box(p.bbox()))
            get("nbbox", lambda: box(np.bbox()))
            if np.normsubpaths and np.normsubpaths[-1].normsubpathitems:
                get("end", lambda: [[q(v, 1) for v in np.atend_pt()]])
        e["refused"] = [not v for v in o.values()] if not isinstance(np, type(guard(int))) else [True]
        for k in ("bbox", "nbbox", "end"):
            if e[k] == bad:
                e[k] = []
        return e

    def randseq():
        es, cp, sp, n, after = [], None, None, 0, False
        P = lambda: [rng.randint(-6, 6) * 4, rng.randint(-6, 6) * 4]
        D = ((1, 0), (0, 1), (-1, 0), (0, -1))
        for _ in range(rng.randint(2, 14)):
            o = rng.choice(["M", "L", "L", "l", "l", "C", "c", "m", "Z", "arc", "arcn", "arc", "arcn", "arct", "arct", "ml", "mc"])
            if cp is None or after:
                o = rng.choice(["M", "M", "arc", "arcn"])
            elif max(map(abs, cp)) > 40 and o not in ("arc", "arcn"):
                o = "M"     # written numbers have six digits: stay below 100
            add = lambda p, d: [p[0] + d[0], p[1] + d[1]]
            if o == "M":
                p = P()
                es.append(el("M", [p]))
                cp = sp = p
                n = 0
            elif o == "m":
                d = P()
                es.append(el("m", [d]))
                cp = sp = add(cp, d)
                n = 0
            elif o in ("L", "l"):
                d = P()
                if rng.random() < 0.1:
                    d = [0, 0]
                t = add(cp, d)
                es.append(el(o, [t if o == "L" else d]))
                cp = t
                n += d != [0, 0]
            elif o in ("C", "c", "mc"):
                k = rng.randint(1, 2) if o == "mc" else 1
                a = []
                for _ in range(k):
                    while True:
                        h, d = P(), P()
                        if h[0] * d[1] != h[1] * d[0]:
                            break
                    a += [add(h, cp), add(add(h, d), cp), add(d, cp)] if o != "c" else [h, add(h, d), d]
                    cp = add(cp, d)
                es.append(el(o, a))
                n += 1
            elif o == "ml":
                a = [P() for _ in range(rng.randint(1, 3))]
                n += any(p != cp for p in a)
                cp = a[-1]
                es.append(el(o, a))
            elif o in ("arc", "arcn"):
                r = rng.choice([4, 8, 12])
                c = P()
                a1 = rng.randint(-2, 5)
                a2 = rng.randint(a1 - 8, a1 + 4) if o == "arc" else rng.randint(a1 - 4, a1 + 8)
                if cp is not None and rng.random() < 0.4:
                    u = D[a1 % 4]
                    c = [cp[0] - r * u[0], cp[1] - r * u[1]]
                es.append(el(o, [c], r, [a1, a2]))
                b, t = ([c[0] + r * D[x % 4][0], c[1] + r * D[x % 4][1]] for x in (a1, a2))
                if cp is None:
                    sp, n = b, 0
                elif after:
                    sp, n = cp, 0
                n += (cp is not None and b != cp) or bool((a2 - a1) % 4 or (a2 - a1 == 4) == (o == "arc") and abs(a2 - a1) == 4)
                cp = t
            elif o == "arct":
                r = rng.choice([2, 4])
                u = D[rng.randint(0, 3)]
                k = rng.choice([8, 12, 4])
                p1 = [cp[0] + k * u[0], cp[1] + k * u[1]]
                if rng.random() < 0.2:
                    # parallel tangents in any direction
                    d = P()
                    if d == [0, 0]:
                        continue
                    f = rng.choice([1, 3, -1])
                    p1 = add(cp, d)
                    es.append(el(o, [p1, add(p1, [f * v for v in d])], r))
                    cp = p1
                else:
                    v = D[(D.index(u) + rng.choice([1, 3])) % 4]
                    k = rng.choice([4, 8])
                    es.append(el(o, [p1, [p1[0] + k * v[0], p1[1] + k * v[1]]], r))
                    cp = [p1[0] - r * u[0] + r * v[0] + 0, p1[1] - r * u[1] + r * v[1]]
                    cp = [p1[0] + r * v[0], p1[1] + r * v[1]]
                n += 1
            elif o == "Z":
                if not n:
                    continue
                es.append(el("Z"))
                cp, n = sp, 0
                after = True
                continue
            after = False
        return es

    for _ in range(ctx.n(2500, 40000)):
        seqs.append(randseq())
    evs = [record(es) for es in seqs]
    ctx.sample(evs[-1])
    traces = [dict(ev=evs[i:i + 1]) for i in range(len(evs))]
    ctx.validate("PathTrace", traces, key=lambda t, l, why: "%s:%s" % (why, "".join(x["o"] for x in t["ev"][l - 1]["es"])),
                 describe=lambda t, l, why: "%s of %r: %r" % (why, [(x["o"], x["a"], x["r"], x["n"]) for x in t["ev"][l - 1]["es"]],
                                                            t["ev"][l - 1].get(dict(PS="ps", PDF="pdf", SVG="svg").get(why, why))))
