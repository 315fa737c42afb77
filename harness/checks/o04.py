"""O04: the bounding box written to a file is the extent of what is painted (spec/Extent.tla, ExtentTrace.tla)."""
import io, re
import scenes, psread, pdfread
import xml.etree.ElementTree as ET
from vp import guard


def tenths(v):
    return [scenes.q(x, 10, 6e-3) for x in v]


def epsbox(data):
    m = re.search(rb"^%%HiResBoundingBox: (.*)$", data, re.M)
    if m is None:
        m0 = re.search(rb"^%%BoundingBox: (.*)$", data, re.M)
        return [] if m0 is None or m0.group(1).split() == [b"0"] * 4 else [scenes.BAD] * 4
    return tenths([float(x) for x in m.group(1).split()])


def pdfbox(data):
    page = pdfread.PDFFile(data).pages()
    b = page[0].get("MediaBox")
    return [] if b is None or not any(b) else tenths(b)


def svgbox(data):
    root = ET.fromstring(data)
    v = root.get("viewBox")
    if v is None:
        return []
    x, y, w, h = [float(t) for t in v.replace(",", " ").split()]
    # the y axis of PyX points upwards
    return tenths([x, -y - h, x + w, -y])


BOX = {"eps": epsbox, "pdf": pdfbox, "svg": svgbox}


def outerpoints(data):
    m = re.search(rb"^%%BoundingBox: (.*)$", data, re.M)
    return [int(x) * 10 for x in m.group(1).split()] if m else []


def run(ctx):
    from pyx import unit
    traces = []
    for _ in range(ctx.n(350, 5000)):
        s = scenes.Gen(ctx.rng, orth=True, rectclip=ctx.rng.random() < 0.5).scene()
        s["attrs"] = [a for a in s["attrs"] if a["k"] != "lw"] + [dict(k="lw", v=ctx.rng.choice([1, 2, 4, 6, 11, 30]))]
        ev = []
        c = guard(lambda: scenes.Builder(0.2 * unit.t_pt).canvas(s))
        if not c.ok:
            ctx.violation("build", str(c.exc), s)
            continue
        c = c.value

        def reported():
            b = c.bbox()
            return [] if not b else tenths(b.highrestuple_pt())
        o = guard(reported)
        ev.append(dict(o="canvas", fmt="", box=o.value if o.ok else [scenes.BAD] * 4))
        for fmt in ("eps", "pdf", "svg"):
            def f():
                d = scenes.write(c, fmt, page_bboxenlarge=0)
                return BOX[fmt](d), d
            o = guard(f)
            ev.append(dict(o="file", fmt=fmt, box=o.value[0] if o.ok else [scenes.BAD] * 4, exc=str(o.exc)))
            if o.ok and fmt == "eps":
                ev.append(dict(o="outer", fmt=fmt, box=outerpoints(o.value[1])))
        traces.append(dict(scene=s, ev=ev))
    ctx.sample(traces[0], 1)
    ctx.note(scenes=len(traces))
    ctx.validate("ExtentTrace", traces, key=lambda t, l, why: why,
                 describe=lambda t, l, why: "%s: %r for scene %r" % (why, t["ev"][l - 1], t["scene"]))
