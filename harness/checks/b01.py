"""B01: the algebra of bounding boxes (spec/Box.tla, BoxMC.tla, BoxTrace.tla).  Coordinates in tenths of points."""
from vp import guard
from scenes import q, BAD

DOWN = ["add", "iadd", "mul", "imul", "enlarge", "enlarged", "transform", "transformed", "include", "copy", "set", "make"]
QUERY = ["bool", "intersects", "lowres", "sides", "rect"]


def val(b):
    return [q(v, 10, 1e-6) for v in b.highrestuple_pt()] if b else []


def run(ctx):
    from pyx import bbox, trafo, unit
    ctx.model_check("BoxMC", constants=dict(N=ctx.n(2, 3)), invariants=["Laws", "Exact", "Turned"], label="lattice laws on a grid")
    rng = ctx.rng
    co = lambda: rng.choice([0, 5, 10, 10, 20, 25, 30, 37, -10, -13])

    def step(regs, e):
        x, y, a = regs[e["x"] - 1], regs[e["y"] - 1], [v / 10 for v in e["a"]]
        op = e["op"]
        if op == "add":
            r = x + y
        elif op == "iadd":
            r = x
            r += y
        elif op == "mul":
            r = x * y
        elif op == "imul":
            r = x
            r *= y
        elif op in ("enlarge", "enlarged"):
            f = getattr(x, op + ("" if e["u"] else "_pt"))
            u = 1 * unit.t_pt if e["u"] else 1
            sfx = "" if e["u"] else "_pt"
            if e["sides"]:
                r = f(**{n + sfx: v * u for n, v in zip(("bottom", "left", "top", "right"), a)})
            elif a[0] == a[3] and e["mixed"]:
                r = f(a[0] * u, **{n + sfx: v * u for n, v in (("left", a[1]), ("top", a[2]))})
            else:
                r = f(*[v * u for v in [a[0] + 77] + a])
        elif op in ("transform", "transformed"):
            m = e["a"]
            r = getattr(x, op)(trafo.trafo_pt(matrix=((m[0], m[2]), (m[1], m[3])), vector=(m[4] / 10, m[5] / 10)))
        elif op == "include":
            r = x.includepoint_pt(*a)
        elif op == "copy":
            r = x.copy()
        elif op == "set":
            r = x.set(y)
        elif op == "make":
            r = bbox.bbox_pt(*a) if a else bbox.empty()
            if a and e["u"]:
                r = bbox.bbox(*[v * unit.t_pt for v in a])
        if op in ("iadd", "imul", "enlarge", "transform", "include", "set"):
            # in place: the register keeps its object
            regs[e["z"] - 1] = r if op in ("iadd", "imul") else x
        else:
            regs[e["z"] - 1] = r

    def query(regs, e):
        x, y = regs[e["x"] - 1], regs[e["y"] - 1]
        op = e["op"]
        if op == "bool":
            return [1 if x else 0]
        if op == "intersects":
            return [1 if x.intersects(y) else 0]
        if not x:
            return []
        if op == "lowres":
            return [int(v) for v in x.lowrestuple_pt()]
        if op == "sides":
            v = [x.bottom_pt(), x.left_pt(), x.top_pt(), x.right_pt(), x.width_pt(), x.height_pt()]
            w = [unit.topt(f()) for f in (x.bottom, x.left, x.top, x.right, x.width, x.height)]
            c = list(x.center_pt())
            d = [unit.topt(t) for t in x.center()]
            if any(abs(p - r) > 1e-6 for p, r in zip(v + c, w + d)):
                return [BAD]
            return [q(t, 10) for t in v] + [q(t, 20) for t in c]
        p = x.rect()
        return val(p.bbox()) if x.llx_pt == x.urx_pt or x.lly_pt == x.ury_pt or p.normpath().normsubpaths[0].closed else [BAD]

    traces = []
    for _ in range(ctx.n(500, 8000)):
        regs = [bbox.empty() for _ in range(4)]
        ev = []
        for _ in range(rng.randint(6, 25)):
            op = rng.choice(["make", "make"] + DOWN + QUERY)
            x, y, z = rng.randint(1, 4), rng.randint(1, 4), rng.randint(1, 4)
            if op in ("iadd", "imul", "enlarge", "transform", "include", "set"):
                z = x
            a = []
            if op in ("enlarge", "enlarged"):
                a = [rng.choice([0, 5, 10, 13]) for _ in range(4)]
                if rng.random() < 0.5:
                    a[3] = a[0]
            elif op in ("transform", "transformed"):
                a = rng.choice([[1, 0, 0, 1], [0, 1, -1, 0], [-1, 0, 0, 1], [1, 1, 0, 1], [2, 0, 0, -1], [0, -1, 1, 0], [1, 0, -1, 1], [1, 1, -1, 1]]) + [co(), co()]
            elif op == "include":
                a = [co(), co()]
            elif op == "make" and rng.random() < 0.85:
                xs, ys = sorted([co(), co()]), sorted([co(), co()])
                a = [xs[0], ys[0], xs[1], ys[1]]
            e = dict(op=op, x=x, y=y, z=z, a=a, u=rng.random() < 0.3, sides=rng.random() < 0.5, mixed=rng.random() < 0.5, res=[])
            if op in QUERY:
                o = guard(query, regs, e)
                e["res"] = o.value if o.ok else [BAD]
            else:
                o = guard(step, regs, e)
            e["ok"] = o.ok
            obs = guard(lambda: [val(r) for r in regs])
            e["obs"] = obs.value if obs.ok else [[BAD]] * 4
            ev.append(e)
            if not o.ok or any(max(map(abs, v), default=0) > 3000 for v in e["obs"]):
                break
        traces.append(dict(ev=ev))
    ctx.sample(traces[0]["ev"][:5])
    ctx.validate("BoxTrace", traces, key=lambda t, l, why: "%s:%s" % (why, t["ev"][l - 1]["op"]),
                 describe=lambda t, l, why: "%s at operation %d: %r" % (why, l, t["ev"][max(0, l - 3):l]))
