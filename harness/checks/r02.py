"""R02: axis partitions (spec/Part.tla, PartMC.tla, PartTrace.tla)."""
import json, math
from fractions import Fraction
from vp import guard
import stubtext

BAD = 99991


def N(v):
    return -1 if v is None else v


def parts(ctx):
    from pyx.graph.axis import tick, parter
    R = tick.rational
    for mode, unit in (("lin", 12), ("log", 100), ("log2", 16)):
        r = ctx.model_check("PartMC", constants=dict(Mode=mode, Big=not ctx.quick), invariants=["Sane", "Emit"], label=mode, heap="8g")
        cases = [json.loads(p[1:]) for p in r.prints]
        if ctx.quick and len(cases) > 6000:
            cases = ctx.rng.sample(cases, 6000)
        ctx.sample({"mode": mode, "case": cases[0]}, 3)
        for x in cases:
            ctx.traces += 1
            c = x["c"]
            if mode == "lin":
                conv = lambda d: R((d, unit)) if ctx.rng.random() < 0.5 or unit % d == 0 else d / unit if (100000 * d) % unit == 0 else "%d/%d" % (d, unit)
                kw = dict(tickdists=[conv(d) for d in c["ticks"][0]] if c["ticks"] else None, labeldists=[conv(d) for d in c["labels"][0]] if c["labels"] else None)
                cls = parter.linear
            else:
                b = lambda d: 10 if unit == 100 else 2
                def conv(d):
                    # mantissas are given in 1..b of the plain scale
                    return parter.preexp([R((f, 1)) for f in d["f"]], d["b"])
                kw = dict(tickpreexps=[conv(d) for d in c["ticks"][0]] if c["ticks"] else None, labelpreexps=[conv(d) for d in c["labels"][0]] if c["labels"] else None)
                cls = parter.logarithmic
            kw.update(extendtick=None if c["et"] < 0 else c["et"], extendlabel=None if c["el"] < 0 else c["el"])
            neg = mode != "lin" and ctx.rng.random() < 0.3
            lo, hi = c["min"] / unit, c["max"] / unit
            a = (-hi, -lo, c["fmax"], c["fmin"]) if neg else (lo, hi, c["fmin"], c["fmax"])

            def f():
                p = cls(**kw)
                fs = p.partfunctions(*a)
                first = [g() for g in fs]
                again = [g() for g in fs]
                return first, again
            o = guard(f)
            want = [(Fraction(t["p"], unit), t["t"], t["l"]) for t in x["r"]]
            if neg:
                want = [(-p, t, l) for p, t, l in reversed(want)]
            if not o.ok:
                ctx.violation("%s:exception" % mode, "%r: %s" % (x, o.exc), x)
                continue
            first, again = o.value
            got = [[(Fraction(t.num, t.denom), N(t.ticklevel), N(t.labellevel)) for t in ts] for ts in first]
            if got != [want]:
                ctx.violation("%s:ticks" % mode, "%r (negative: %r): expected %s, got %s" % (c, neg, [(str(p), t, l) for p, t, l in want], [[(str(p), t, l) for p, t, l in g] for g in got]), x)
            elif again != [None]:
                ctx.violation("%s:single" % mode, "%r: a single partition is delivered again" % (c,), x)


def axes(ctx, n):
    from pyx import path
    from pyx.graph import axis
    from pyx.graph.axis import tick, parter, positioner
    StubEngine, StubBox = stubtext.make()
    r = ctx.rng
    R = tick.rational
    VARS = parter.autolinear.defaultvariants
    traces = []
    skipped = 0
    for _ in range(n):
        log = r.random() < 0.35
        divisor = None
        manual = []
        rev = r.random() < 0.3
        pn = r.random() < 0.3
        if log:
            neg = r.random() < 0.25
            while True:
                c1, c2 = [(r.randint(-3, 6), r.randint(10, 99)) for _ in (0, 1)]
                if (c2[0] - c1[0]) * 90 + c2[1] - c1[1] > 150:
                    break
            code = lambda c: 100 * c[0] + c[1]
            val = lambda c: float("%de%d" % (c[1], c[0] - 1))
            lo, hi = code(c1), code(c2)
            vlo, vhi = val(c1), val(c2)
            inner = [(c1[0] + 1, r.randint(10, 99))] if c2[0] > c1[0] + 1 else []
            vals = [vlo, vhi] + [val(c) for c in inner]
            for _ in range(r.choice([0, 0, 0, 1, 2])):
                m = (r.randint(c1[0], c2[0]), 10 * r.randint(1, 9))
                if lo <= code(m) <= hi and code(m) not in [q[0] for q in manual]:
                    manual.append((code(m), R("%de%d" % (m[1], m[0] - 1)), r.choice([None, 0, 1]), r.choice([None, 0])))
            et = r.choice([0, 0, None])
            kind = "autolog"
            par = parter.autologarithmic(extendtick=et)
            cls = axis.logarithmic

            def pos(t):
                f = Fraction(t.num, t.denom)
                f = -f if neg else f
                if f <= 0:
                    return BAD
                i = 0
                while f >= 10:
                    f, i = f / 10, i + 1
                while f < 1:
                    f, i = f * 10, i - 1
                f *= 10
                return 100 * i + int(f) if f.denominator == 1 else BAD

            def rpos(x):
                x = -x if neg else x
                if not x > 0:
                    return BAD
                i = math.floor(math.log10(x) + 1e-9)
                m = x / 10.0 ** i * 10
                return 100 * i + round(m) if abs(m - round(m)) < 1e-6 else BAD
        else:
            neg = False
            e = r.randint(-4, 4)
            u = Fraction(10) ** (e - 5)
            lo = r.randint(-900000, 300000) if r.random() < 0.5 else 10000 * r.randint(-50, 50)
            hi = lo + (r.randint(100100, 899900) if r.random() < 0.7 else 10000 * r.randint(11, 89))
            # the fractional part of a divided position stays a multiple of the unit
            divisor = r.choice([None, None, None, 2, 3, 5, 7])
            q = divisor or 1
            vlo, vhi = float(lo * u * q), float(hi * u * q)
            vals = [vlo, vhi] + [float(r.randint(lo, hi) * u * q) for _ in range(2)]
            for _ in range(r.choice([0, 0, 0, 1, 2, 3])):
                m = r.choice([r.randint(lo - 50000, hi + 50000), 50000 * r.randint(lo // 50000, hi // 50000)])
                if m not in [y[0] for y in manual]:
                    f = m * u
                    manual.append((m, R((f.numerator, f.denominator)), r.choice([None, 0, 1, 2]), r.choice([None, 0, 1])))
            x = r.random()
            et = r.choice([0, 0, 0, None])
            ev = {}
            if x < 0.65:
                kind, par = "autolinear", parter.autolinear(extendtick=et)
            elif x < 0.9:
                kind = "linear"
                ds = [r.choice([25000, 50000, 70000, 100000, 150000])]
                if r.random() < 0.5:
                    ds.append(r.choice([10000, 12500, 25000, ds[0] // 2]))
                ls = [r.choice([100000, 50000, ds[0], 2 * ds[0]])] if r.random() < 0.4 else None
                mk = lambda d: R(((d * u).numerator, (d * u).denominator))
                et = r.choice([0, 0, None, 1])
                el = r.choice([None, None, 0])
                par = parter.linear(tickdists=[mk(d) for d in ds], labeldists=ls and [mk(d) for d in ls], extendtick=et, extendlabel=el)
                ev = dict(ticks=[ds], labels=[ls] if ls else [], el=N(el))
            else:
                kind, par = "none", None
                if not manual:
                    continue
            cls = axis.linear

            def pos(t):
                f = Fraction(t.num, t.denom) / q / u
                return int(f) if f.denominator == 1 and abs(f) < 10 ** 8 else BAD

            def rpos(y):
                y = y / float(u) / q
                return round(y) if abs(y - round(y)) < 1e-3 and abs(y) < 10 ** 8 else BAD
        fmin, fmax = r.random() < 0.6, r.random() < 0.6
        if neg:
            vals, vlo, vhi = [-v for v in vals], -vhi, -vlo
        kw = dict(manualticks=[tick.tick(p if not neg else R((-p.num, p.denom)), t, l) for _, p, t, l in manual], reverse=rev)
        swapped = (not neg and not fmin and not fmax and r.random() < 0.2)
        f1, f2 = (fmax, fmin) if neg else (fmin, fmax)
        if not f1:
            kw["min"] = vhi if swapped else vlo
        if not f2:
            kw["max"] = vlo if swapped else vhi
        if divisor:
            kw["divisor"] = divisor
        if pn:
            kw["painter"] = None
        manual.sort()
        if par is not None or kind == "none":
            kw["parter"] = par
        r.shuffle(vals)

        def f():
            a = cls(**kw)
            an = axis.anchoredaxis(a, StubEngine(0.02), "test")
            an.setpositioner(positioner.pathpositioner(path.line(0, 0, 40, 0)))
            an.setcreatecall(lambda: None)
            k = r.randint(1, len(vals))
            an.adjustaxis(vals[:k])
            an.adjustaxis(vals[k:])
            an.create()
            return [[pos(t), N(t.ticklevel), N(t.labellevel)] for t in an.data.ticks], [rpos(an.data.min), rpos(an.data.max)]
        o = guard(f)
        ev0 = dict(k=kind, min=lo, max=hi, fmin=fmin, fmax=fmax, et=N(et), el=-1, ticks=[], labels=[], exc="",
                   manual=[dict(p=m[0], t=N(m[2]), l=N(m[3])) for m in manual], res=[], rng=[0, 0])
        if not log:
            ev0.update(ev)
        if o.ok:
            ts, rng = o.value
            if neg:
                ts, rng = ts[::-1], rng[::-1]
            ev0.update(res=[dict(p=p, t=a, l=b) for p, a, b in ts], rng=rng)
        else:
            if "NoValidPartition" in str(o.exc) or "no axis partitioning" in str(o.exc):
                if kind in ("linear", "none"):
                    continue
                # a manual label off the grid may overlap the generated ones in all the variants
                crowded = [m for m in manual if m[3] is not None and (log or m[0] % 50000)]
                if crowded and "NoValidPartition" in str(o.exc):
                    skipped += 1
                    if skipped <= 0.05 * n:
                        continue
            ev0["exc"] = str(o.exc)
        traces.append(dict(ev=[ev0], kw={k: str(v) for k, v in kw.items()}, vals=vals, neg=neg))
    ctx.sample({"axis": traces[0]["ev"][0]}, 4)
    ctx.validate("PartTrace", traces, key=lambda t, l, why: "axis:%s:%s%s" % (why, t["ev"][0]["k"], ":manual" if t["ev"][0]["manual"] else ""),
                 describe=lambda t, l, why: "%s: axis %r with data %r: %r" % (why, t["kw"], t["vals"], t["ev"][0]))


def run(ctx):
    parts(ctx)
    axes(ctx, ctx.n(1500, 12000))
