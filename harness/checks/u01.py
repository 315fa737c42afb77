"""U01: lengths and unit scales (spec/Length.tla, LengthMC.tla, LengthTrace.tla)."""
import io
import psstate
from vp import guard

BAD = 99991
PT = dict(pt=1.0, mm=72 / 25.4, cm=72 / 2.54, m=7200 / 2.54, inch=72.0)
LIMIT = 2 ** 29


def atoms(x):
    """points -> quarters of atoms"""
    try:
        y = float(x) * 2032 * 4
    except (TypeError, ValueError):
        return BAD
    r = round(y)
    return int(r) if abs(y - r) <= 0.02 and abs(r) < 2 ** 31 - 1 else BAD


def run(ctx):
    from pyx import unit, canvas, path, style
    ctx.model_check("LengthMC", constants=dict(N=ctx.n(1, 2)), invariants=["Linear", "TrueFixed"], init="Init", next="Next", properties=["OneKind"],
                    label="laws of lengths under rescaling")
    rng = ctx.rng
    to = dict(pt=unit.topt, mm=unit.tomm, cm=unit.tocm, m=unit.tom, inch=unit.toinch)
    kinds = "tuvwx"
    predefined = [(k, u) for k in kinds for u in PT]

    def total(l):
        v = {atoms(to[u](l) * PT[u]) for u in to}
        return v.pop() if len(v) == 1 else BAD

    def perform(e, regs):
        op = e["op"]
        if op == "set":
            kw = {"%sscale" % k: s / 4 for k, s in zip("uvwx", e["set"]) if s >= 0}
            if e["unit"]:
                kw["defaultunit"] = e["unit"]
            unit.set(**kw)
            return
        x = regs[e["x"] - 1]
        y = (e["n"] / 4 if e["n"] % 4 else e["n"] // 4) if e["plain"] else regs[e["y"] - 1]
        z = None
        if op == "new":
            if e["pre"]:
                z = e["n"] / 4 * getattr(unit, (e["unit"] if e["kind"] == "u" and e["pre"] == 2 else "%s_%s" % (e["kind"], e["unit"])))
            elif e["unit"]:
                z = unit.length(e["n"] / 4, e["kind"], e["unit"])
            else:
                z = unit.length(e["n"] / 4, type=e["kind"])
        elif op == "add":
            z = x + y
        elif op == "radd":
            z = y + x if e["plain"] else sum([y, x])
        elif op == "sub":
            z = x - y
        elif op == "rsub":
            z = y - x
        elif op == "mul":
            z = x * e["n"]
        elif op == "rmul":
            z = e["n"] * x
        elif op == "div":
            z = x / e["n"]
        elif op == "neg":
            z = -x
        elif op == "cmp":
            lt, gt, le, ge, eq, ne = x < y, x > y, x <= y, x >= y, x == y, x != y
            e["res"] = [(-1 if lt else 1 if gt else 0) if (le, ge, ne) == (lt or eq, gt or eq, not eq) and lt + gt + eq == 1 else BAD]
        elif op == "ratio":
            v = x / y
            e["res"] = [int(round(v)) if abs(v - round(v)) < 1e-9 else BAD]
        elif op == "tonum":
            e["res"] = [total(e["n"] / 4 if e["n"] % 4 else e["n"] // 4)]
        elif op == "draw":
            c = canvas.canvas()
            c.stroke(path.line(0, 0, x, y), [style.linewidth(regs[e["z"] - 1])])
            f = io.BytesIO()
            c.writeEPSfile(f)
            (_, p, gs), = psstate.eps_paints(f.getvalue())
            (px, py), = p[1][1]
            e["res"] = [near(v, total(w)) for v, w in ((px, x), (py, y), (gs.lw, regs[e["z"] - 1]))]
        if z is not None:
            regs[e["z"] - 1] = z

    def near(v, t):
        """written numbers have few digits: snap to the multiple of an atom nearest to the converted value"""
        if t == BAD:
            return BAD
        return t if abs(v * 2032 * 4 - t) <= 8 + 2e-5 * abs(t) else int(v * 2032 * 4)

    def comps(l):
        return [round(getattr(l, k) / 0.0254 * 72 * 2032) for k in kinds]

    traces = []
    try:
        for _ in range(ctx.n(600, 8000)):
            unit.set(uscale=1, vscale=1, wscale=1, xscale=1, defaultunit="cm")
            regs = [unit.length(0, "t", "pt") for _ in range(4)]
            ev = []
            for _ in range(rng.randint(5, 25)):
                e = dict(op=rng.choice(["new"] * 4 + ["add", "radd", "sub", "rsub", "mul", "rmul", "div", "neg", "cmp", "cmp", "ratio", "tonum", "set", "set", "set", "draw"]),
                         x=rng.randint(1, 4), y=rng.randint(1, 4), z=rng.randint(1, 4), n=0, kind="u", unit="", plain=False, pre=0, set=[-1] * 4, same=False, res=[])
                op = e["op"]
                if op == "new":
                    e["kind"], e["unit"] = rng.choice(predefined)
                    e["pre"] = rng.choice([0, 0, 1, 2])
                    if not e["pre"] and rng.random() < 0.4:
                        e["unit"] = ""
                    e["n"] = rng.randint(-12, 12)
                elif op in ("add", "radd", "sub", "rsub", "cmp", "tonum"):
                    e["plain"] = op == "tonum" or rng.random() < 0.3
                    e["n"] = rng.randint(-12, 12) if e["plain"] else 0
                    if op == "tonum" or e["plain"]:
                        e["y"] = e["x"]
                    if op == "cmp" and not e["plain"]:
                        e["same"] = regs[e["x"] - 1] is regs[e["y"] - 1]
                elif op in ("mul", "rmul"):
                    e["n"] = rng.choice([0, 2, 3, -1, -2, 4])
                elif op == "div":
                    e["n"] = rng.choice([2, 4, 3, -2])
                    if any(c % e["n"] for c in comps(regs[e["x"] - 1])):
                        continue
                elif op == "ratio":
                    a, b = total(regs[e["x"] - 1]), total(regs[e["y"] - 1])
                    if not b or a % b:
                        continue
                elif op == "set":
                    for i in range(4):
                        if rng.random() < 0.4:
                            e["set"][i] = rng.choice([1, 2, 3, 4, 6, 8, 10, 0])
                    if rng.random() < 0.4:
                        e["unit"] = rng.choice(list(PT))
                elif op == "draw":
                    w = total(regs[e["z"] - 1])
                    xy = [abs(total(regs[e[k] - 1])) for k in "xy"]
                    if w <= 0 or max(xy) > 10 ** 8 or max(xy) < 10 ** 5:
                        continue
                keep = list(regs)
                o = guard(perform, e, regs)
                e["ok"] = o.ok
                e["obs"] = [total(l) for l in regs]
                if any(abs(v) > LIMIT or sum(map(abs, comps(l))) * 10 > LIMIT for v, l in zip(e["obs"], regs)):
                    if e["op"] == "set":
                        break
                    regs[:] = keep
                    continue
                ev.append(e)
            if ev:
                traces.append(dict(ev=ev))
    finally:
        unit.set(uscale=1, vscale=1, wscale=1, xscale=1, defaultunit="cm")
    ctx.sample(traces[0]["ev"][:4])
    ctx.validate("LengthTrace", traces, key=lambda t, l, why: "%s:%s" % (why, t["ev"][l - 1]["op"]),
                 describe=lambda t, l, why: "%s at operation %d: %r" % (why, l, t["ev"][max(0, l - 3):l]))
