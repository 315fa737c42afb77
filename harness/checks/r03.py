"""R03: tick labels denote the value of their tick (spec/Texter.tla, TexterMC.tla, TexterTrace.tla)."""
import json
from vp import guard
import stubtext


def ticks_of(qs, extra=None):
    from pyx.graph.axis import tick
    return [tick.tick((n, d), 0, 0) for n, d in qs]


def decimal(o, **kw):
    from pyx.graph.axis import texter
    return texter.decimal(prefix=o["prefix"], infix=o["infix"], suffix=o["suffix"], equalprecision=o["equalprecision"], decimalsep=o["decimalsep"],
                          thousandsep=o["thousandsep"], thousandthpartsep=o["thousandthpartsep"], plus=o["plus"], minus=o["minus"], period="<%s>", **kw)


def default(o):
    from fractions import Fraction
    from pyx.graph.axis import texter
    skip = getattr(texter.skipmantissaunity, o["skip"])
    return texter.default(base=Fraction(o["base"]), skipmantissaunity=skip, minusunity=o["minusunity"], minexponent=o["minexp"], minnegexponent=o["minneg"],
                          uniformexponent=o["uniform"], mantissatexter=decimal(o["mantissa"]), exponenttexter=decimal(o["exponent"]))


def rational(o):
    from pyx.graph.axis import texter
    keys = "prefix infix suffix numprefix numinfix numsuffix denomprefix denominfix denomsuffix plus minus minuspos equaldenom skip1 skipnum0 skipnum1 skipdenom1".split()
    return texter.rational(over="%s/%s", **{k: o[k] for k in keys})


def flatten(x):
    """the structure of a label: plain texts, scripts and stacks"""
    from pyx import text
    if isinstance(x, text.MultiEngineText):
        return ["multi", x.tex, [flatten(u) for u in x.unicode]]
    if isinstance(x, text.StackedText):
        return ["stack", [flatten(t) for t in x.texts]]
    if isinstance(x, text.Text):
        return ["text", x.text]
    return x


def expected(kind, l):
    j = "".join
    if kind == "decimal":
        return j(l)
    if kind == "default":
        if not l["exp"]:
            return j(l["man"])
        m, b, e = j(l["man"]), j(l["base"]), j(l["ex"])
        if l["skip"]:
            return ["multi", "%s%s^{%s}" % (m, b, e), [m + b, ["text", e]]]
        return ["multi", "%s%s%s^{%s}" % (m, r"\cdot{}", b, e), [m + "·" + b, ["text", e]]]
    if not l["den"]:
        return j(l["pre"]) + j(l["num"]) + j(l["suf"])
    return ["multi", "%s%s/%s%s" % (j(l["pre"]), j(l["num"]), j(l["den"]), j(l["suf"])), [j(l["pre"]), ["stack", [["text", j(l["num"])], ["text", j(l["den"])]]], j(l["suf"])]]


def replay(ctx):
    make = dict(decimal=decimal, default=default, rational=rational)
    for kind in make:
        r = ctx.model_check("TexterMC", constants=dict(Kind=kind, Big=not ctx.quick), invariants=["DecLaws", "DefLaws", "Emit"], label=kind + " labels", heap="10g")
        cases = [json.loads(p[1:]) for p in r.prints]
        if len(cases) > ctx.n(8000, 60000):
            cases = ctx.rng.sample(cases, ctx.n(8000, 60000))
        ctx.note(**{kind + "_cases": len(cases)})
        for c in cases:
            ctx.traces += 1
            want = [expected(kind, l) for l in c["l"]]
            ts = ticks_of(c["qs"])
            bystanders = [(), (None, None), ("own", 0)][ctx.rng.randint(0, 2)]

            def f():
                from pyx.graph.axis import tick
                more = []
                if bystanders:
                    lab, lev = bystanders
                    more = [tick.tick((1, 999), 1, lev, label=lab)]
                all = more + ts if ctx.rng.random() < 0.5 else ts + more
                x = make[kind](c["o"])
                if ctx.rng.random() < 0.3:
                    x = x() if kind != "decimal" else x(prefix=c["o"]["prefix"])
                x.labels(all)
                if more and more[0].label != bystanders[0]:
                    return ["changed another label: %r" % (more[0].label,)]
                return [flatten(t.label) for t in ts]
            o = guard(f)
            if not o.ok or o.value != want:
                ctx.violation("label:%s%s" % (kind, ":" + str(bystanders[0]) if bystanders else ""), "%s texter %r, ticks %r (with %r): labels %r instead of %r" % (kind, c["o"], c["qs"], bystanders, o.value if o.ok else o.exc, want), c)
        ctx.sample({kind: cases[len(cases) // 2]}, 3)


def label_record(l):
    from pyx import text
    if isinstance(l, text.MultiEngineText):
        t = l.tex
        m = t.index("^{")
        head, ex = t[:m], t[m + 2:-1]
        if "\\cdot{}" in head:
            man, base = head.split("\\cdot{}")
            return dict(exp=True, skip=False, man=list(man), base=list(base), ex=list(ex))
        neg = head.startswith("-")
        return dict(exp=True, skip=True, man=list("-" if neg else ""), base=list(head[1:] if neg else head), ex=list(ex))
    return dict(exp=False, skip=False, man=list(l), base=[], ex=[])


def axes(ctx, n):
    from fractions import Fraction
    from pyx import path
    from pyx.graph import axis
    from pyx.graph.axis import parter, positioner, tick
    StubEngine, StubBox = stubtext.make()
    r = ctx.rng
    traces = []
    for _ in range(n):
        sg = lambda: r.choice(["", "", "P", "Q"])

        def deco():
            return dict(prefix=sg(), infix=sg(), suffix=sg(), equalprecision=r.random() < 0.5, decimalsep=r.choice([".", ","]), thousandsep=r.choice(["", "t"]),
                        thousandthpartsep=r.choice(["", "_"]), plus=r.choice(["", "+"]), minus="-")
        kind = r.choice(["decimal", "default"])
        if kind == "decimal":
            o = deco()
            tx = decimal(o)
        else:
            pl = dict(prefix="", infix="", suffix="", equalprecision=False, decimalsep=".", thousandsep="", thousandthpartsep="", plus="", minus="-")
            o = dict(base=10, skip=r.choice(["never", "each", "all"]), minusunity="-", minexp=r.choice([1, 2, 4]), minneg=r.choice([1, 2, 4]), uniform=r.random() < 0.5,
                     mantissa=dict(pl, equalprecision=r.random() < 0.5), exponent=dict(pl, plus=r.choice(["", "+"])))
            tx = default(o)
        log = r.random() < 0.25
        div = r.choice([Fraction(1), Fraction(1), Fraction(3), Fraction(1, 4), Fraction(2, 7), Fraction(50)])
        dist = r.choice([Fraction(1), Fraction(1, 2), Fraction(1, 5), Fraction(5), Fraction(250), Fraction(1, 3), Fraction(1, 16)])
        lo, hi = r.randint(-6, 4), r.randint(5, 9)
        own = []
        if r.random() < 0.4:
            for k in range(r.randint(1, 3)):
                q = (dist * r.randint(lo, hi) if r.random() < 0.7 else dist * lo + Fraction(r.randint(1, 9), 13) * dist) / div
                if q not in [x[0] for x in own]:
                    own.append((q, "own%d" % k, r.choice([None, 0, 1])))
        try:
            if log:
                if div != 1:
                    div = Fraction(1)
                x0, x1 = 10.0 ** r.randint(-5, 0), 10.0 ** r.randint(1, 5)
                own = []
                a = axis.log(min=x0, max=x1, texter=tx, painter=axis.painter.regular() if r.random() < 0.5 else None)
            else:
                mt = [tick.tick((q.numerator, q.denominator), 0, lev, label=lab) for q, lab, lev in own]
                kw = dict(divisor=float(div) if r.random() < 0.5 and div.denominator in (1, 2, 4) else "%d/%d" % (div.numerator, div.denominator)) if div != 1 else {}
                if isinstance(kw.get("divisor"), str):
                    kw = dict(divisor=div.numerator) if div.denominator == 1 else dict(divisor=float(div)) if div.denominator in (2, 4) else {}
                if not kw:
                    div = Fraction(1)
                d2 = dist / div
                a = axis.lin(min=float(dist * lo), max=float(dist * hi), manualticks=mt, texter=tx,
                             parter=parter.lin(tickdists=[tick.rational((d2.numerator, d2.denominator))], labeldists=[tick.rational((d2.numerator, d2.denominator))] if r.random() < 0.6 else
                                               [tick.rational((2 * d2.numerator, d2.denominator))]), **kw)
        except Exception as e:
            raise
        an = axis.anchoredaxis(a, StubEngine(0.02), "test")
        an.setpositioner(positioner.pathpositioner(path.line_pt(0, 0, 100, 0)))
        an.setcreatecall(lambda: an.create())
        g = guard(an.create)
        ev = dict(k="axis", ok=g.ok, kind=kind, o=o, div=[div.numerator, div.denominator], ticks=[], own=[dict(q=[q.numerator, q.denominator], lab=label_record(lab)) for q, lab, lev in own])
        if g.ok:
            for t in an.data.ticks:
                f = Fraction(t.num, t.denom)
                if max(abs(f.numerator), f.denominator) > 3 * 10 ** 6:
                    break
                g2 = guard(lambda: [label_record(t.label)] if t.label is not None else [])
                ev["ticks"].append(dict(q=[f.numerator, f.denominator], lev=-1 if t.labellevel is None else t.labellevel, lab=g2.value if g2.ok else ["unreadable"]))
            else:
                traces.append(dict(ev=[ev], log=log))
        else:
            traces.append(dict(ev=[ev], log=log))
    ctx.validate("TexterTrace", traces, key=lambda t, l, why: "axis:%s:%s" % (why, t["ev"][0]["kind"]),
                 describe=lambda t, l, why: "%s axis: %s: %s" % ("log" if t["log"] else "linear", why, json.dumps(t["ev"][0])))


def run(ctx):
    replay(ctx)
    axes(ctx, ctx.n(700, 6000))
