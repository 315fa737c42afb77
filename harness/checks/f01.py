"""F01: glyph programs of Type 1 fonts (spec/T1.tla, T1MC.tla, T1Trace.tla)."""
import glob, io, json, logging, os
import t1build
from vp import guard

SC = 1000


def contours(p):
    """[start, pieces, closed] of the contours of a PyX path"""
    from pyx import path
    out, cur, pos = [], None, None
    for i in p.pathitems:
        if isinstance(i, path.moveto_pt):
            cur = [(i.x_pt, i.y_pt), [], False]
            out.append(cur)
        elif isinstance(i, path.lineto_pt):
            cur[1].append([(i.x_pt, i.y_pt)])
        elif isinstance(i, path.curveto_pt):
            cur[1].append([(i.x1_pt, i.y1_pt), (i.x2_pt, i.y2_pt), (i.x3_pt, i.y3_pt)])
        elif isinstance(i, path.closepath):
            cur[2] = True
            cur = [cur[0], [], False]
            out.append(cur)
        else:
            raise ValueError("unexpected path element %r" % i)
    return [c for c in out if c[1]]


def want(e):
    fr = lambda q: q[0] / q[1]
    pt = lambda p: (fr(p[0]), fr(p[1]))
    return [[pt(c["at"]), [[pt(p) for p in s] for s in c["segs"]], c["closed"]] for c in e["out"]], (fr(e["w"][0]), fr(e["w"][1]))


def near(a, b, eps=1e-6):
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(near(x, y, eps) for x, y in zip(a, b))
    if isinstance(a, bool):
        return a == b
    return abs(a - b) <= eps * (1 + abs(a))


class Sink(io.BytesIO):
    pass


def writer(buf):
    from pyx import writer
    return writer.writer(buf)


def run(ctx):
    from pyx.font import t1file
    logging.disable(logging.CRITICAL)
    r = ctx.rng
    pieces = ["rmoveto", "hmoveto", "vmoveto", "rlineto", "hlineto", "vlineto", "rrcurveto", "hvcurveto", "vhcurveto", "close", "closehere", "hints", "replace", "counter",
              "fracline", "fracmove", "sub", "args", "computed", "below", "belowdiv", "flex", "drop"]
    few = ["rmoveto", "rlineto", "vhcurveto", "close", "replace", "counter", "belowdiv", "below", "flex", "fracline"]
    kw = dict(invariants=["NoError", "EndsHere", "Clean", "Emit"], init="Init", next="Next", heap="12g")
    sets = [ctx.model_check("T1MC", constants=dict(Depth=ctx.n(2, 3), Pieces=set(pieces), Begins={"hsbw", "div", "sbw", "subr"}), label="charstring machine: all pieces", **kw),
            ctx.model_check("T1MC", constants=dict(Depth=ctx.n(3, 4), Pieces=set(few), Begins={"hsbw"}), label="charstring machine: longer programs", **kw)]
    seen = set()
    for res in sets:
        data = [json.loads(p[1:]) for p in res.prints]
        font = [d["font"] for d in data if "font" in d][0]
        cases = [d for d in data if "prog" in d]
        r.shuffle(cases)
        base = {t1build.STD[g["code"]]: g["cmds"] for g in font["glyphs"]}
        # many glyphs to a font
        for at in range(0, len(cases), 40):
            batch = cases[at:at + 40]
            glyphs = dict(base)
            names = []
            for i, c in enumerate(batch):
                names.append("g%d" % i)
                glyphs["g%d" % i] = c["prog"]
            lay = t1build.Layout(r)
            enc = {10 + i: g for i, g in enumerate(names) if i != 3}
            enc.update({k: v for k, v in t1build.STD.items() if v in glyphs})
            if lay.encoding == "sparse":
                enc = {k: v for k, v in enc.items() if v in names}
            raw = t1build.build(font["subrs"], glyphs, lay, encoding=enc)
            o = guard(lambda: t1file.T1File.from_PF_bytes(raw))
            if not o.ok:
                ctx.violation("t1:read:%s" % str(o.exc)[:60], "a %s font is refused: %s" % ("PFA" if lay.pfa else "PFB", o.exc), lay.describe())
                continue
            f = o.value
            for g, c in zip(names, batch):
                check(ctx, r, f, g, c, lay, font)
            whole(ctx, r, f, raw, lay, names, batch, seen)
    real(ctx, r)


def check(ctx, r, f, g, c, lay, font, tag=""):
    from pyx.font import t1file
    out, w = want(c)
    prog = " ".join(str(i) if k == "n" else k for k, i in c["prog"])
    size, x, y = r.choice([(1000, 0, 0), (1000, 0, 0), (10, 3, -7), (2500, 0.5, 1)])

    def go():
        p = f.getglyphpath_pt(x, y, g, size)
        return contours(p.path), (p.wx_pt, p.wy_pt)
    o = guard(go)
    kind = "seac" if "seac" in prog else "flex" if "7 callothersubr" in prog or "0 callsubr" in prog else "plain"
    if not o.ok:
        return ctx.violation("t1:%sexec:%s:%s" % (tag, kind, str(o.exc)[:60]), "executing '%s': %s" % (prog, o.exc), dict(prog=prog, layout=lay.describe()))
    k = size / 1000
    back = lambda p: ((p[0] - x) / k, (p[1] - y) / k)
    got = [[back(a), [[back(p) for p in s] for s in segs], cl] for a, segs, cl in o.value[0]]
    gw = (o.value[1][0] / k, o.value[1][1] / k)
    if not near(gw, w):
        ctx.violation("t1:%swidth:%s" % (tag, kind), "'%s' has the width %s instead of %s" % (prog, gw, w), dict(prog=prog, subrs=font["subrs"]))
    if not near(got, out):
        ctx.violation("t1:%soutline:%s" % (tag, kind), "'%s' has the outline %s instead of %s" % (prog, got, out), dict(prog=prog, subrs=font["subrs"]))
    if tag:
        return
    # what it refers to

    def refs():
        seac, subrs = set(), set()
        f.gatherglyphcalls(g, seac, subrs, t1file.T1context(f))
        return seac, subrs
    o = guard(refs)
    if not o.ok:
        return ctx.violation("t1:refs:%s:%s" % (kind, str(o.exc)[:60]), "finding the references of '%s': %s" % (prog, o.exc), dict(prog=prog))
    need = {t1build.STD[i] for i in c["glyphs"]}
    if o.value[0] != need or not set(c["subrs"]) <= o.value[1]:
        ctx.violation("t1:refs:%s" % kind, "'%s' refers to %s %s, found %s %s" % (prog, need, c["subrs"], o.value[0], o.value[1]), dict(prog=prog))


def same(a, b):
    return [list(x) for x in a] == [list(x) for x in b]


def whole(ctx, r, f, raw, lay, names, batch, seen):
    """writing fonts: complete and with few glyphs"""
    from pyx.font import t1file
    orig = t1build.parse(raw)
    # codes of the glyphs
    if orig["encoding"] is not None:
        for code in r.sample(sorted(orig["encoding"]), 6):
            o = guard(lambda: contours(f.getglyphpath_pt(0, 0, code, 1000, convertcharcode=True).path) == contours(f.getglyphpath_pt(0, 0, orig["encoding"][code], 1000).path))
            if not o.ok or not o.value:
                ctx.violation("t1:code:%s" % (o.exc and str(o.exc)[:60]), "the glyph of code %d is not %s" % (code, orig["encoding"][code]), lay.describe())
    picks = [None] + [r.sample(names, min(len(names), r.choice([1, 1, 2, 3]))) for i in range(12)]
    for pick in picks:
        byname = r.random() < 0.5 or orig["encoding"] is None
        codes = {v: k for k, v in (orig["encoding"] or {}).items()}
        for form in ("pfa", "pfb", "pdf"):
            def go():
                s = f
                if pick is not None:
                    gs = {g for g in pick if byname or g not in codes}
                    cs = {codes[g] for g in pick if not (byname or g not in codes)}
                    s = f.getstrippedfont(gs, cs)
                b = Sink()
                w = writer(b)
                if form == "pfa":
                    s.outputPFA(w)
                elif form == "pfb":
                    s.outputPFB(w)
                else:
                    class W:
                        compress = False
                    s.outputPDF(w, W)
                    d = b.getvalue()
                    d = d[d.index(b"stream\n") + 7:d.rindex(b"\nendstream")]
                    return d
                return b.getvalue()
            o = guard(go)
            what = "whole" if pick is None else "stripped"
            if not o.ok:
                ctx.violation("t1:write:%s:%s:%s" % (what, form, str(o.exc)[:60]), "writing a %s font as %s: %s" % (what, form, o.exc), lay.describe())
                continue
            p = guard(lambda: t1build.parse(o.value))
            if not p.ok:
                ctx.violation("t1:written:%s:%s:%s" % (what, form, str(p.exc)[:60]), "the %s font written as %s is malformed: %s" % (what, form, p.exc), lay.describe())
                continue
            p = p.value
            pick_ = names if pick is None else pick
            cs = {n: c for n, c in zip(names, batch)}
            need = set(pick_) | {".notdef"}
            subrs = set()
            for g in pick_:
                need |= {t1build.STD[i] for i in cs[g]["glyphs"]}
                subrs |= set(cs[g]["subrs"])
            bad = ""
            if pick is None:
                need, subrs = set(orig["glyphs"]), set(orig["subrs"])
            if set(p["glyphs"]) != need:
                bad = "glyphs %s instead of %s" % (sorted(p["glyphs"]), sorted(need))
            elif any(not same(p["glyphs"][g], orig["glyphs"][g]) for g in need):
                bad = "a glyph program changed"
            elif any(i not in p["subrs"] or not same(p["subrs"][i], orig["subrs"][i]) for i in subrs):
                bad = "a subroutine is missing or changed"
            elif sorted(p["subrs"]) != list(range(len(p["subrs"]))):
                bad = "subroutine numbers"
            elif p["counts"] != [len(p["subrs"]), len(p["glyphs"])]:
                bad = "counts %s" % p["counts"]
            elif p["name"] != orig["name"] or p["matrix"] != orig["matrix"]:
                bad = "name or matrix"
            elif (p["encoding"] is None) != (orig["encoding"] is None) or (p["encoding"] is not None and {k: v for k, v in p["encoding"].items() if v in need} !=
                                                                          {k: v for k, v in orig["encoding"].items() if v in need}):
                bad = "encoding"
            if bad:
                ctx.violation("t1:written:%s:%s:%s" % (what, form, bad.split(" ")[0]), "a %s font written as %s: %s" % (what, form, bad), dict(layout=lay.describe(), glyphs=pick_))


def real(ctx, r):
    """glyphs of real fonts: their programs are executed by the specification"""
    from pyx.font import t1file
    pats = ["/usr/share/texlive/texmf-dist/fonts/type1/**/*.pfb", os.path.join(os.environ.get("VERIF_REPO", "/repo"), "**/*.pfb")]
    files = sorted({f for p in pats for f in glob.glob(p, recursive=True)})
    if not files:
        return ctx.note(real="no font files are installed: real glyphs not covered")
    special = [f for f in files if any(s in f for s in ("bchr8a", "t1xtt", "pcrr8a", "utmr8a", "cmr10.", "lmr10"))]
    traces = []
    for fn in special + r.sample(files, min(len(files), ctx.n(12, 200))):
        raw = open(fn, "rb").read()
        try:
            font = t1build.parse(raw)
        except Exception as e:
            continue
        std = {v: k for k, v in enumerate(t1file.adobestandardencoding) if v}
        f = t1file.T1File.from_PF_bytes(raw)
        for g in r.sample(sorted(font["glyphs"]), min(len(font["glyphs"]), ctx.n(12, 60))) + [g for g in font["glyphs"] if any(c[0] == "seac" for c in font["glyphs"][g])][:ctx.n(6, 60)]:
            cmds = font["glyphs"][g]
            ops = {}
            codes = sorted({v for c, v in zip(cmds[1:], cmds) if c[0] == "seac"})
            i = next((i for i, c in enumerate(cmds) if c[0] == "seac"), None)
            gl = {str(cmds[i - k][1]): font["glyphs"].get(t1file.adobestandardencoding[cmds[i - k][1]], t1build.NOTDEF) for k in (1, 2)} if i is not None else {}
            o = guard(lambda: f.getglyphpath_pt(0, 0, g, 1000))
            e = dict(font=os.path.basename(fn), glyph=g, cmds=[list(c) for c in cmds], failed="" if o.ok else str(o.exc), out=[], w=[0, 0],
                     codes=[int(k) for k in gl], progs=[[list(c) for c in v] for v in gl.values()], subrs=[])
            # only the subroutines which may be needed
            need, todo = set(), [cmds] + list(gl.values())
            while todo:
                cs = todo.pop()
                for k, c in enumerate(cs):
                    for v in ([cs[k - 1][1]] if c[0] == "callsubr" and cs[k - 1][0] == "n" else [] if c[0] != "callothersubr" else [cs[k - 3][1]] if k > 2 and cs[k - 1][1] == 3 else []):
                        if v not in need and v in font["subrs"]:
                            need.add(v)
                            todo.append(font["subrs"][v])
            e["subrs"] = [[list(c) for c in font["subrs"][i]] if i in need else [["return", 0]] for i in range(max(need) + 1 if need else 0)]
            if len(e["subrs"]) > 400:
                continue
            if o.ok:
                q = lambda p: [int(round(SC * v)) for v in p]
                m = font["matrix"]
                if m != [0.001, 0, 0, 0.001, 0, 0]:
                    continue
                e["out"] = [dict(at=q(a), segs=[[q(p) for p in s] for s in segs], closed=cl) for a, segs, cl in contours(o.value.path)]
                e["w"] = q((o.value.wx_pt, o.value.wy_pt))
            traces.append(dict(ev=[e]))
    key = lambda t, l, why: "t1:real:%s:%s" % (why, t["ev"][l - 1]["failed"][:60])
    desc = lambda t, l, why: "%s: glyph %s of %s: %s" % (why, t["ev"][l - 1]["glyph"], t["ev"][l - 1]["font"], json.dumps(t["ev"][l - 1])[:600])
    ctx.validate("T1Trace", traces, key=key, describe=desc, heap="12g", chunk=400)
    ctx.sample({"glyph": {k: traces[-1]["ev"][0][k] for k in ("font", "glyph", "w")}})
