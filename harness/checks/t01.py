"""T01: affine transformations (spec/Affine.tla, AffineMC.tla, TrafoTrace.tla)."""
import io, re
from scenes import q, BAD, NUM
from vp import guard


def six(t):
    (a, c), (b, d) = t.matrix
    return [q(a, 1, 1e-6), q(b, 1, 1e-6), q(c, 1, 1e-6), q(d, 1, 1e-6), q(t.vector[0], 10, 1e-6), q(t.vector[1], 10, 1e-6)]


def run(ctx):
    from pyx import trafo, unit, path
    ctx.model_check("AffineMC", constants=dict(N=1), invariants=["Homomorphism", "Associative", "Neutral", "Determinant"], label="group laws")
    rng = ctx.rng
    det = lambda t: t.matrix[0][0] * t.matrix[1][1] - t.matrix[0][1] * t.matrix[1][0]
    pt = lambda: [rng.randint(-5, 5) * 10, rng.randint(-5, 5) * 10]

    def args(e, u):
        """positional and keyword arguments of the named kind of transformation; u: with units"""
        c = [x / 10 * (1 * unit.t_pt if u else 1) for x in e["c"]]
        op = e["op"]
        if op == "rotate":
            return [90 * e["k"]] + c
        if op == "scale":
            if e["a"][0] == e["a"][1] and not c:
                return [e["a"][0]]
            return [e["a"][0], e["a"][1]] + c
        if op == "slant":
            if e["k"] == 0 and not c:
                return [e["a"][0]]
            return [e["a"][0], 90 * e["k"]] + c
        if op == "mirror":
            return [45 * e["k"]]
        if op == "translate":
            return c

    def step(regs, e):
        u = e["u"]
        x, y = regs[e["x"] - 1], regs[e["y"] - 1]
        if e["how"] == "new":
            if e["op"] == "make":
                a = e["a"]
                mat = ((a[0], a[2]), (a[1], a[3]))
                r = trafo.trafo(matrix=mat, vector=[v / 10 * unit.t_pt for v in a[4:]]) if u else trafo.trafo_pt(matrix=mat, vector=(a[4] / 10, a[5] / 10))
            elif e["op"] == "mirror":
                r = trafo.mirror(*args(e, u))
            else:
                r = getattr(trafo, e["op"] + ("" if u else "_pt"))(*args(e, u))
        elif e["how"] == "chain":
            name = {"rotate": "rotated", "scale": "scaled", "slant": "slanted", "mirror": "mirrored", "translate": "translated"}[e["op"]]
            r = getattr(x, name + ("" if u or e["op"] == "mirror" else "_pt"))(*args(e, u))
        elif e["how"] == "mul":
            r = x * y
        else:
            r = x.inverse()
            d = round(det(x))
            e["res"] = six(trafo.trafo_pt(matrix=[[v * d for v in row] for row in r.matrix], vector=[v * d for v in r.vector]))
            if d != 1:
                return
        regs[e["z"] - 1] = r

    def query(regs, e):
        x = regs[e["x"] - 1]
        op = e["op"]
        pts = [[v / 10 for v in p] for p in e["pts"]]
        if op == "apply_pt":
            return [[q(v, 10) for v in x.apply_pt(*p)] for p in pts]
        if op == "apply":
            return [[q(unit.topt(v), 10) for v in x.apply(*[w * unit.t_pt for w in p])] for p in pts]
        if op in ("path", "deform", "normpath"):
            pp = path.path(path.moveto_pt(*pts[0]), path.lineto_pt(*pts[1]), path.curveto_pt(*(pts[2] + pts[3] + pts[4])))
            if op == "normpath":
                np = pp.normpath().transformed(x)
                i = np.normsubpaths[0].normsubpathitems
                r = [i[0].atbegin_pt(), i[0].atend_pt(), (i[1].x1_pt, i[1].y1_pt), (i[1].x2_pt, i[1].y2_pt), (i[1].x3_pt, i[1].y3_pt)]
            else:
                p2 = pp.transformed(x) if op == "path" else x.deform(pp)
                nums = [[float(v) for v in NUM.findall(l)] for l in ps(p2)]
                flat = [v for l in nums for v in l]
                r = [flat[i:i + 2] for i in range(0, 10, 2)]
            return [[q(v, 10, 5e-3) for v in p] for p in r]
        if op == "str":
            return mat(str(x))
        if op == "svg":
            d = {}
            x.processSVGattrs(d, None, None, None)
            return mat(d["transform"])
        f = []

        class F:
            def write(self, s):
                f.append(s)
        getattr(x, "process" + op.upper())(F(), None, None, None)
        return mat("".join(f))

    def ps(p):
        f = []

        class F:
            def write(self, s):
                f.append(s)
        p.outputPS(F(), None)
        return "".join(f).strip().split("\n")

    def mat(s):
        v = [float(n) for n in NUM.findall(s)]
        return [q(n, 1) for n in v[:4]] + [q(n, 10) for n in v[4:]] if len(v) == 6 else [BAD]

    def unitop():
        op = rng.choice(["rotate", "rotate", "scale", "slant", "mirror", "translate"])
        c = pt() if op == "translate" or (op != "mirror" and rng.random() < 0.5) else []
        a = {"scale": [rng.choice([1, 2, -1, 3]), rng.choice([1, 2, -1, 1])], "slant": [rng.choice([1, -1, 2])]}.get(op, [])
        if op == "scale" and rng.random() < 0.3:
            a = [2, 2]
        return dict(op=op, k=rng.randint(0, 3), c=c, a=a)

    traces = []
    for _ in range(ctx.n(500, 6000)):
        regs = [trafo.identity] * 4
        ev = []
        for _ in range(rng.randint(5, 22)):
            how = rng.choice(["new", "chain", "chain", "mul", "inverse", "query", "query"])
            e = dict(how=how, x=rng.randint(1, 4), y=rng.randint(1, 4), z=rng.randint(1, 4), op="", k=0, c=[], a=[], u=rng.random() < 0.5, pts=[], res=[])
            if how == "new" and rng.random() < 0.4:
                e.update(op="make", a=[rng.choice([0, 1, 1, -1, 2]) for _ in range(4)] + pt())
            elif how in ("new", "chain"):
                e.update(unitop())
            elif how == "query":
                e["op"] = rng.choice(["apply", "apply_pt", "path", "deform", "normpath", "ps", "pdf", "svg", "str"])
                if e["op"] not in ("ps", "pdf", "svg", "str"):
                    while True:
                        e["pts"] = [pt() for _ in range(5)]
                        p = e["pts"]
                        # a curve normalisation does not split: both control points on one side, handles parallel
                        d = pt()
                        p[2], p[3] = [p[1][0] + d[0], p[1][1] + d[1]], [p[4][0] + d[0], p[4][1] + d[1]]
                        if p[0] != p[1] and d[0] * (p[4][1] - p[1][1]) != d[1] * (p[4][0] - p[1][0]):
                            break
                    if abs(det(regs[e["x"] - 1])) < 0.5 and e["op"] in ("path", "deform", "normpath"):
                        e["op"] = "apply"
            elif how == "inverse" and 0 < abs(det(regs[e["x"] - 1])) < 0.5:
                continue    # singular up to rounding errors
            e["z"] = e["z"] if how != "query" else e["x"]
            o = guard(query if how == "query" else step, regs, e)
            e["ok"] = o.ok
            if how == "query":
                e["res"] = o.value if o.ok else [BAD]
            e["obs"] = [six(r) for r in regs]
            ev.append(e)
            if any(abs(v) > 20000 for r in e["obs"] for v in r):
                ev.pop()
                break
        if ev:
            traces.append(dict(ev=ev))
    ctx.sample(traces[0]["ev"][:4])
    ctx.validate("TrafoTrace", traces, key=lambda t, l, why: "%s:%s" % (why, t["ev"][l - 1]["op"] or t["ev"][l - 1]["how"]),
                 describe=lambda t, l, why: "%s at operation %d: %r" % (why, l, t["ev"][max(0, l - 2):l]))
