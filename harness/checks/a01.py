"""A01: merging attribute lists (spec/Merge.tla, MergeMC.tla)."""
import json
from vp import guard


def tables():
    from pyx import attr, style, text, deco, color, trafo
    return dict(
        style=[style.linewidth.thick, style.linewidth(0.1), style.dash([1]), style.linestyle.dotted, style.linecap.round, style.linecap.butt,
               style.linewidth.clear, style.dash.clear, attr.clear],
        text=[text.parbox(5), text.parbox_pt(70), text.valign.top, text.vshift.middlezero, text.size.large, text.mathmode, text.phantom,
              text.boxhalign.right, text.halign.center, text.valign.clear, text.parbox.clear],
        deco=[deco.stroked([color.rgb.red]), deco.stroked, deco.filled([color.rgb.red]), deco.filled, deco.linehatched(0.1, 45), deco.linehatched(0.2, 10),
              deco.earrow.normal, color.rgb.blue, trafo.scale(2), deco.stroked.clear, deco.linehatched.clear, deco.arrow.clear])


def run(ctx):
    from pyx import attr
    length = ctx.n(4, 5)
    for group, real in tables().items():
        r = ctx.model_check("MergeMC", constants=dict(MaxLen=length, Group=group), raw=dict(Tab="<- Tables"),
                            invariants=["Stepwise", "OneOfAKind", "Emit"], label="all %s lists of %d" % (group, length))
        cases = [json.loads(p[1:]) for p in r.prints]
        ctx.sample({"group": group, "case": cases[-7]}, 3)
        for c in cases:
            given = [real[i - 1] for i in c["i"]]
            want = [real[i - 1] for i in c["o"]]
            ctx.traces += 1
            keep = list(given)
            o = guard(attr.mergeattrs, given)
            if not o.ok or len(o.value) != len(want) or any(a is not b for a, b in zip(o.value, want)) or given != keep or o.value is given:
                ctx.violation("%s:merge" % group, "list %r: expected %r, got %r" % (c["i"], c["o"], [[real.index(x) + 1 for x in o.value] if o.ok else str(o.exc)]), c)
                continue
            n = ctx.rng.randint(0, len(given))
            first = guard(attr.mergeattrs, given[:n])
            if first.ok and group != "text":
                kept = list(first.value)
                second = guard(attr.mergeattrs, first.value + given[n:])
                third = guard(attr.refineattrs, given[n:], first.value, [attr.attr])
                for name, x in (("stepwise", second), ("refine", third)):
                    if not x.ok or len(x.value) != len(want) or any(a is not b for a, b in zip(x.value, want)) or first.value != kept:
                        ctx.violation("%s:%s" % (group, name), "list %r split at %d: expected %r, got %r" % (c["i"], n, c["o"], x.exc or [real.index(y) + 1 for y in x.value]), c)
            # selection and checking by class
            classes = [type(given[0])] if given else [attr.attr]
            if guard(attr.getattrs, given, classes).value != [a for a in given if isinstance(a, classes[0])]:
                ctx.violation("%s:getattrs" % group, "getattrs %r" % c["i"], c)
            if guard(attr.checkattrs, given, classes).ok != all(isinstance(a, classes[0]) for a in given):
                ctx.violation("%s:checkattrs" % group, "checkattrs %r" % c["i"], c)
