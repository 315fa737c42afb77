"""R05: bar, nested bar and split axes (spec/BarAxis.tla, BarMC.tla, BarTrace.tla)."""
from scenes import BAD
from vp import guard
import stubtext

S = 10000


def run(ctx):
    from pyx import path, box
    from pyx.graph import axis
    from pyx.graph.axis import positioner, painter
    StubEngine, StubBox = stubtext.make()
    ctx.model_check("BarMC", constants=dict(MaxVals=ctx.n(2, 3)), invariants=["Tiles", "OnAxis", "Ordered", "NameOrder", "Once"], label="laws")
    r = ctx.rng
    traces = []

    def leafcfg():
        k = r.choice(["lin", "lin", "sized", "auto"])
        c = dict(k=k, size=r.choice([2, 4, 6, 12]) if k == "sized" else 0, min=[], max=[], rev=r.random() < 0.3, dist=0, first=0, last=0, named=[])
        c["def"] = []
        if r.random() < 0.4:
            c["min"] = [r.choice([-2, -3])]
        if r.random() < 0.4:
            c["max"] = [r.choice([4, 5])]
        return c

    def barcfg(depth):
        d = r.choice([0, 1, 2, 2, 4])
        c = dict(k="bar", size=0, min=[], max=[], rev=r.random() < 0.3, dist=d, first=d / 2, last=d / 2, named=[], how=r.choice(["default", "explicit"]))
        c["how"] = r.choice(["bar", "bar", "split", "nestedbar"]) if depth == 0 else "bar"
        sub = (lambda: barcfg(depth + 1)) if depth == 0 and (r.random() < 0.5 or c["how"] == "nestedbar") else leafcfg
        c["def"] = [sub()]
        if r.random() < 0.3:
            c["named"] = [dict(n=n, c=sub()) for n in "abc"]
        c["explicit"] = r.random() < 0.5 or d % 2 == 1
        if c["explicit"]:
            c["first"], c["last"] = r.randint(0, 3), r.randint(0, 3)
        elif c["how"] == "split":
            c["first"] = c["last"] = 0
        c["first"], c["last"] = int(c["first"]), int(c["last"])
        return c

    def make(c):
        if c["k"] == "bar":
            kw = dict(dist=c["dist"] / 4, reverse=c["rev"])
            if c["explicit"]:
                kw.update(firstdist=c["first"] / 4, lastdist=c["last"] / 4)
            if c["named"]:
                kw["subaxes"] = {names[x["n"]]: make(x["c"]) for x in c["named"]}
            else:
                kw["defaultsubaxis"] = make(c["def"][0])
            cls = getattr(axis, c["how"])
            if c["how"] == "split" or r.random() < 0.5:
                kw["painter"] = None
                c["painted"] = False
            else:
                c["painted"] = True
            return cls(**kw)
        kw = dict(reverse=c["rev"], parter=None, painter=None)
        if c["min"]:
            kw["min"] = c["min"][0]
        if c["max"]:
            kw["max"] = c["max"][0]
        if c["k"] == "sized":
            kw["size"] = c["size"] / 4
        return {"lin": axis.linear, "sized": axis.sizedlinear, "auto": axis.autosizedlinear}[c["k"]](**kw)

    def value(c, data):
        """a random value of the tree: names and number"""
        if c["k"] == "bar":
            n = r.choice("abc" if data else "abcd")
            sub = next((x["c"] for x in c["named"] if x["n"] == n), c["def"][0])
            v = value(sub, data)
            return dict(p=[n] + v["p"], x=v["x"])
        return dict(p=[], x=[r.randint(-2, 4) if data else r.randint(-3, 5)])

    def real(v):
        x = float(v["x"][0])
        for n in reversed(v["p"]):
            x = (names.get(n, "dd"), x)
        return x

    def pos(v):
        return round(v * S) if abs(v) < 15 else BAD
    for it in range(ctx.n(1500, 15000)):
        cfg = barcfg(0)
        names = r.choice([dict(a="a", b="b", c="c", d="d"), dict(a=0, b=1, c=2, d=3), dict(a="xx", b="a", c=(1, 2), d="c")])
        back = {v: k for k, v in names.items()}
        ev = []

        def f():
            a = make(cfg)
            an = axis.anchoredaxis(a, StubEngine(0.01), "test")
            an.setpositioner(positioner.pathpositioner(path.line_pt(0, 0, 100, 0)))
            an.setcreatecall(lambda: an.create())
            for _ in range(r.randint(1, 3)):
                vs = [value(cfg, True) for _ in range(r.randint(1, 5))]
                data = [real(v) for v in vs]
                if r.random() < 0.1:
                    data.insert(r.randint(0, len(data)), (None, 1.0))
                o = guard(an.adjustaxis, data)
                ev.append(dict(k="adjust", vs=vs, ok=o.ok, exc=str(o.exc)))
            ref = an
            if r.random() < 0.3:
                ref = axis.linkedaxis(an, "link")
                ref.setpositioner(positioner.pathpositioner(path.line_pt(0, 50, 100, 50)))
                ref.setcreatecall(lambda: ref.create())
            o = guard(ref.create)
            ev.append(dict(k="made", ok=o.ok, exc=str(o.exc)))
            if not o.ok:
                return
            subs = []

            def walk(an, p):
                for n, s in an.data.subaxes.items():
                    q = p + [back[n]]
                    x1, x2 = s.vtickpoint_pt(0)[0] / 100, s.vtickpoint_pt(1)[0] / 100
                    bp = s.vbasepath()
                    y1, y2 = bp.atbegin_pt()[0] / 100, bp.atend_pt()[0] / 100
                    subs.append(dict(p=q, b=pos(x1), e=pos(x2), ob=pos(y1), oe=pos(y2)))
                    if hasattr(s.data, "subaxes"):
                        walk(s, q)
            walk(an, [])
            ev.append(dict(k="layout", subs=subs))
            if cfg["painted"]:
                boxes = [t for t in an.canvas.layer("labels").items if isinstance(t, StubBox)]
                if not isinstance(an.data.subaxes[an.data.names[0]].axis, axis.bar) or not cfg["def"][0].get("painted"):
                    inv = {str(v): k for k, v in names.items()}
                    ev.append(dict(k="names", names=[dict(n=inv.get(t.text, "?"), v=pos(t.center[0] / 100)) for t in boxes]))
            for _ in range(4):
                v = value(cfg, False)
                o = guard(ref.convert, real(v))
                ev.append(dict(k="conv", v=v, ok=o.ok, r=pos(o.value) if o.ok else 0, exc=str(o.exc)))
            if r.random() < 0.2:
                v = value(cfg, True)
                o = guard(an.adjustaxis, [real(v)])
                ev.append(dict(k="adjust", vs=[v], ok=o.ok, exc=str(o.exc)))
                v = value(cfg, False)
                o = guard(ref.convert, real(v))
                ev.append(dict(k="conv", v=v, ok=o.ok, r=pos(o.value) if o.ok else 0, exc=str(o.exc)))
        o = guard(f)
        if not o.ok:
            ctx.violation("failed", "%s: axis %r, events %r" % (o.exc, cfg, ev), ev)
            continue
        traces.append(dict(cfg=cfg, ev=ev))
    ctx.sample({"axis": traces[0]}, 2)
    ctx.note(events=sum(len(t["ev"]) for t in traces))
    ctx.validate("BarTrace", traces, key=lambda t, l, why: "%s:%s" % (why, t["cfg"]["how"]),
                 describe=lambda t, l, why: "%s: axis %r: events %r" % (why, t["cfg"], t["ev"][:l]))
