"""O05: layers and insertion order decide what is painted above what (spec/Layers*.tla)."""
import io, json, re
from vp import guard


def paintorder(c):
    """ids of the painted lines, in the order of the real PostScript output"""
    f = io.BytesIO()
    c.writeEPSfile(f)
    txt = f.getvalue().decode("latin1")
    return [int(float(m.group(1))) for m in re.finditer(r"newpath\s+(\S+) 0(?:\.0*)? moveto", txt)]


def flat(c, drawn):
    if not drawn:
        return []
    return paintorder(c)


def target(c, path, handles):
    if not path:
        return c
    return c.layer(".".join(path))


def replay(pyx, ops):
    """run the operations on a real canvas; returns the recorded events"""
    from pyx import canvas, path, unit
    c = canvas.canvas()
    drawn = set()
    ev = []
    handles = {}
    for op in ops:
        e = dict(k=op["k"], p=list(op["p"]), w=op["w"], r=list(op["r"]), id=op["id"])
        if op["k"] == "draw":
            def f():
                h = tuple(op["p"])
                if op.get("h") and h in handles:
                    t = handles[h]
                else:
                    t = handles[h] = target(c, op["p"], handles)
                t.stroke(path.line_pt(op["id"], 0, op["id"], 10))
            o = guard(f)
            drawn.add(op["id"])
        elif op["k"] == "layer":
            kw = {} if op["w"] == "none" else {op["w"]: ".".join(op["r"])}
            o = guard(lambda: c.layer(".".join(op["p"]), **kw))
            if o.ok:
                handles[tuple(op["p"])] = o.value
        else:
            o = guard(c.clear)
            drawn.clear()
            handles.clear()
        e["out"] = "ok" if o.ok else "refused" if o.kind == "exc" else o.kind
        p = guard(flat, c, drawn)
        e["flat"] = p.value if p.ok else [-1]
        ev.append(e)
    return ev


def run(ctx):
    import pyx
    depth = ctx.n(3, 4)
    r = ctx.model_check("LayersMC", constants=dict(MaxOps=depth), invariants=["NothingLost", "Unique", "Placement", "Emit"],
                        label="all behaviours of %d operations" % depth)
    behaviours = [json.loads(p[1:]) for p in r.prints]
    ctx.note(behaviours_replayed=len(behaviours))
    if ctx.quick and len(behaviours) > 3000:
        behaviours = ctx.rng.sample(behaviours, 3000)
    for b in behaviours:
        ev = replay(pyx, b)
        ctx.traces += 1
        for i, (e, h) in enumerate(zip(ev, b)):
            if (e["out"] == "ok") != h["ok"] or e["flat"] != h["flat"]:
                ctx.violation("replay:%s:%s" % (h["k"], "refused" if not h["ok"] else h["w"]),
                              "operation %d of %r: expected ok=%r order %r, got %r %r" % (i + 1, [(x["k"], x["p"], x["w"], x["r"]) for x in b[:i + 1]], h["ok"], h["flat"], e["out"], e["flat"]), b)
                break
    ctx.sample({"behaviour": behaviours[len(behaviours) // 2]})

    # longer random histories, recorded from the real canvas and checked against the specification
    rng = ctx.rng
    names = [["a"], ["b"], ["c"], ["g"], ["g", "x"], ["g", "y"], ["g", "z"], ["h", "x"], ["h", "y", "u"], ["h", "y", "v"]]
    traces = []
    for t in range(ctx.n(250, 3000)):
        ops = []
        for i in range(rng.randint(8, 30)):
            k = rng.random()
            if k < 0.5:
                ops.append(dict(k="draw", p=rng.choice(names + [[]]), w="none", r=[], id=i + 1, h=rng.random() < 0.5))
            elif k < 0.98:
                p = rng.choice(names)
                w = rng.choice(["none", "above", "below", "above", "below"])
                sib = [q for q in names if len(q) == len(p) and q[:-1] == p[:-1]]
                rr = [] if w == "none" else rng.choice(sib if rng.random() < 0.9 else names)
                ops.append(dict(k="layer", p=p, w=w, r=rr, id=0))
            else:
                ops.append(dict(k="clear", p=[], w="none", r=[], id=0))
        traces.append({"ev": replay(pyx, ops)})
    ctx.sample({"recorded trace": traces[0]["ev"][:6]})
    ctx.validate("LayersTrace", traces, key=lambda t, l, why: "%s:%s" % (why, t["ev"][l - 1]["w"]),
                 describe=lambda t, l, why: "%s at operation %d: %r" % (why, l, t["ev"][:l]))
