"""R01: rationals and tick lists (spec/Rat.tla, RatMC.tla)."""
import json, operator
from fractions import Fraction
from vp import guard


def dec(x):
    s = x["sign"]
    if x["int"] or not x["fl"]:
        s += str(x["int"])
    if x["fl"]:
        s += ".%0*d" % (x["fl"], x["frac"])
    if x["e"]:
        s += "e%d" % x["e"]
    return s


def build(rational, x):
    if x["k"] == "dec":
        return rational(dec(x["x"]))
    if x["k"] == "float":
        return rational(float(dec(x["x"])))
    if x["k"] == "quot":
        return rational(dec(x["x"]) + "/" + dec(x["y"]))
    return rational((x["n"], x["d"]), power=x["p"])


def same(r, v):
    return r.denom != 0 and Fraction(r.num, r.denom) == Fraction(v[0], v[1])


def run(ctx):
    from pyx.graph.axis import tick
    T = tick.rational
    cases = lambda mode: [json.loads(p[1:]) for p in ctx.model_check("RatMC", constants=dict(Mode=mode, Big=not ctx.quick), invariants=["Law", "Emit"], label=mode).prints]
    for x in cases("num"):
        ctx.traces += 1
        o = guard(build, T, x["a"])
        if x["v"] == [0, 0]:
            # a power of zero that does not exist
            if o.ok and o.value.denom != 0:
                ctx.violation("zero-denominator", "%r is accepted as %s" % (x["a"], o.value), x)
            continue
        if not o.ok or not same(o.value, x["v"]):
            ctx.violation("value:%s" % x["a"]["k"], "%r: expected %r, got %s" % (x["a"], x["v"], o.exc or o.value), x)
            continue
        f = guard(float, o.value)
        if not f.ok or abs(f.value - x["v"][0] / x["v"][1]) > 1e-12 * max(1, abs(x["v"][0] / x["v"][1])):
            ctx.violation("float", "float of %r: %r" % (x["a"], f), x)
        for g in (lambda: T(o.value), lambda: tick.tick(o.value)):
            cp = guard(g)
            if not cp.ok or not same(cp.value, x["v"]):
                ctx.violation("copy", "copy of %r: %r" % (x["a"], cp), x)
    pairs = cases("pair")
    ctx.sample(pairs[len(pairs) // 2])
    for x in pairs:
        ctx.traces += 1
        o = guard(lambda: (build(T, x["a"]), build(T, x["b"])))
        if not o.ok:
            ctx.violation("value:pair", "%r: %s" % (x, o.exc), x)
            continue
        a, b = o.value
        va, vb = (a.num, a.denom), (b.num, b.denom)
        lt, eq = x["lt"], x["eq"]
        for name, want in (("lt", lt), ("eq", eq), ("le", lt or eq), ("gt", not (lt or eq)), ("ge", not lt), ("ne", not eq)):
            r = guard(getattr(operator, name), a, b)
            if not r.ok or bool(r.value) != want:
                ctx.violation("compare:%s" % name, "%s %s %s (%r, %r): expected %r, got %r" % (a, name, b, x["a"], x["b"], want, r.exc or r.value), x)
            r = guard(getattr(operator, name), a, vb[0] / vb[1])
            if not eq and (not r.ok or bool(r.value) != want):
                ctx.violation("compare-number:%s" % name, "%s %s %r: expected %r, got %r" % (a, name, vb[0] / vb[1], want, r.exc or r.value), x)
        for name, f, want in (("mul", operator.mul, x["mul"]), ("div", operator.truediv, x["div"]), ("abs", lambda p, q: abs(p), x["abs"])):
            r = guard(f, a, b)
            if want == [0, 0]:
                if r.ok and r.value.denom:
                    ctx.violation("zero-division", "%s / %s gives %s" % (a, b, r.value), x)
            elif not r.ok or not same(r.value, want) or r.value is a or r.value is b:
                ctx.violation("arithmetic:%s" % name, "%s %s %s: expected %r, got %s" % (a, name, b, want, r.exc or r.value), x)
        if (a.num, a.denom) != va or (b.num, b.denom) != vb:
            ctx.violation("operand-changed", "%r" % x, x)
        for name, f, want in (("imul", operator.imul, x["mul"]), ("idiv", operator.itruediv, x["div"])):
            if want == [0, 0]:
                continue
            a2 = T(a)
            r = guard(f, a2, b)
            if not r.ok or not same(r.value, want) or (b.num, b.denom) != vb or (a.num, a.denom) != va:
                ctx.violation("arithmetic:%s" % name, "%s %s %s: expected %r, got %s" % (a, name, b, want, r.exc or r.value), x)
            elif x["b"]["p"] == 1:
                # the result compares as its value
                third = T((want[0] * 2 + 1, want[1] * 2))
                if not (r.value < third) or third < r.value or r.value == third:
                    ctx.violation("compare:after-%s" % name, "%s %s %s does not compare as its value" % (a, name, b), x)
    merges = cases("merge")
    ctx.sample(merges[len(merges) // 2])
    N = lambda v: None if v < 0 else v

    def ticks(l, k=1):
        return [tick.tick((p["p"][0] * k, p["p"][1] * k), N(p["t"]), N(p["l"])) for p in l]
    view = lambda l: [(Fraction(t.num, t.denom), t.ticklevel, t.labellevel) for t in l]
    for x in merges:
        ctx.traces += 1
        for equal, want in ((1, x["m"]), (0, x["k"])):
            a, b = ticks(x["a"]), ticks(x["b"], 3)
            ka, kb, vb = list(a), list(b), view(b)
            o = guard(tick.mergeticklists, a, b, mergeequal=equal)
            if not o.ok or view(o.value) != view(ticks(want)):
                ctx.violation("merge:%d" % equal, "merging %r and %r (mergeequal=%d): expected %r, got %r" % (view(a), vb, equal, view(ticks(want)), view(o.value) if o.ok else o.exc), x)
            elif [id(t) for t in a] != [id(t) for t in ka] or [id(t) for t in b] != [id(t) for t in kb] or view(b) != vb:
                ctx.violation("merge:lists-changed", "merging %r and %r" % (view(ka), vb), x)
            elif o.ok:
                want_levels = tuple(max([(t[i] + 1) for t in ((y["t"], y["l"]) for y in want) if t[i] >= 0] + [0]) for i in (0, 1))
                m = guard(tick.maxlevels, o.value)
                if not m.ok or tuple(m.value) != want_levels:
                    ctx.violation("maxlevels", "%r: expected %r, got %r" % (view(o.value), want_levels, m), x)
    # a label stays with its position, whatever list it is given in
    for i in range(len(merges)):
        if i % 37 == 0 and merges[i]["a"] and merges[i]["b"]:
            a, b = ticks(merges[i]["a"]), ticks(merges[i]["b"])
            lab = {}
            for k, t in enumerate(a + b):
                f = Fraction(t.num, t.denom)
                if f not in lab:
                    t.label = lab[f] = "label%d" % k
            o = guard(tick.mergeticklists, b, a)
            if not o.ok or {Fraction(t.num, t.denom): t.label for t in o.value} != lab:
                ctx.violation("merge:label", "labels get lost merging %r and %r" % (view(b), view(a)), merges[i])
