"""Reading written paths back as path elements of spec/PathBuild.tla (integer points)."""
import io, math, re
from scenes import q, BAD

TOL = 2e-3


def el(o, a=(), r=0, n=()):
    return dict(o=o, a=[list(p) for p in a], r=r, n=list(n))


def pts(v):
    return [[q(v[i], 1), q(v[i + 1], 1)] for i in range(0, len(v), 2)]


def read_ps(text):
    """straight-line PostScript path construction"""
    res, st, items = [], [], []
    for t in text.split():
        try:
            st.append(float(t))
            continue
        except ValueError:
            pass
        if t in ("moveto", "lineto", "curveto", "closepath") and len(st) == dict(curveto=6, closepath=0).get(t, 2):
            items.append(({"moveto": "M", "lineto": "L", "curveto": "C", "closepath": "Z"}[t],) + tuple((st[i], st[i + 1]) for i in range(0, len(st), 2)))
        else:
            items.append(None)
        try:
            if t in ("moveto", "lineto", "curveto", "rmoveto", "rlineto", "rcurveto"):
                if len(st) != (6 if "curve" in t else 2):
                    raise ValueError
                res.append(el({"moveto": "M", "lineto": "L", "curveto": "C", "rmoveto": "m", "rlineto": "l", "rcurveto": "c"}[t], pts(st)))
            elif t in ("arc", "arcn"):
                x, y, r, a1, a2 = st
                res.append(el(t, pts([x, y]), q(r, 1), [q(a1 / 90, 1), q(a2 / 90, 1)]))
            elif t == "arct":
                res.append(el("arct", pts(st[:4]), q(st[4], 1)))
            elif t == "closepath" and not st:
                res.append(el("Z"))
            else:
                res.append(el("bad"))
        except ValueError:
            res.append(el("bad"))
        st = []
    if None not in items and not st and items and items[0][0] == "M":
        return absolute(items)      # nothing but lines and curves: curves may approximate circles
    return res if not st else res + [el("bad")]


def circle(p):
    """(centre, radius, sweep) of a Bezier curve approximating a circular arc, else None"""
    (x0, y0), (x1, y1), (x2, y2), (x3, y3) = p
    d0, d3 = (x1 - x0, y1 - y0), (x3 - x2, y3 - y2)
    det = d0[0] * d3[1] - d0[1] * d3[0]
    l0, l3 = math.hypot(*d0), math.hypot(*d3)
    if l0 < 1e-9 or l3 < 1e-9 or abs(l0 - l3) > 1e-3 * l0 + 2e-3 or abs(det) < 1e-6 * l0 * l3:
        return None
    # the centre is on the normals at both ends
    u = ((x3 - x0) * d3[0] + (y3 - y0) * d3[1]) / (-d0[1] * d3[0] + d0[0] * d3[1])
    c = (x0 - u * d0[1], y0 + u * d0[0])
    r = math.hypot(x0 - c[0], y0 - c[1])
    for t in (0.25, 0.5, 0.75, 1):
        s = 1 - t
        x = s ** 3 * x0 + 3 * s * s * t * x1 + 3 * s * t * t * x2 + t ** 3 * x3
        y = s ** 3 * y0 + 3 * s * s * t * y1 + 3 * s * t * t * y2 + t ** 3 * y3
        if abs(math.hypot(x - c[0], y - c[1]) - r) > 3e-4 * r + 1e-3:
            return None
    sweep = math.degrees(math.atan2(det, d0[0] * d3[0] + d0[1] * d3[1]))
    return c, r, sweep


def absolute(items):
    """items: ("M", p) ("L", p) ("C", p1, p2, p3) ("Z",) with float points; runs of circle pieces become arcs"""
    res, cp, run = [], None, None

    def flush():
        nonlocal run
        if run:
            c, r, sweep, start, pieces, clean = run
            a0 = math.degrees(math.atan2(start[1] - c[1], start[0] - c[0])) / 90
            if abs(sweep / 90 - round(sweep / 90)) < 5e-3 and abs(a0 - round(a0)) < 5e-3:
                # r is taken at the start point
                res.append(el("Q", pts(list(c)), q(math.hypot(start[0] - c[0], start[1] - c[1]), 1), [round(a0) % 4, round(sweep / 90)]))
            else:
                for p in pieces:
                    res.append(el("C", pts([v for x in p for v in x])))
        run = None

    for it in items:
        if it[0] == "C":
            k = circle([cp] + list(it[1:]))
            if k:
                c, r, s = k
                if run and abs(run[0][0] - c[0]) < 5e-3 and abs(run[0][1] - c[1]) < 5e-3 and (run[2] > 0) == (s > 0) and abs(run[1] - r) < 5e-3:
                    run[2] += s
                    run[4].append(it[1:])
                else:
                    flush()
                    run = [c, r, s, cp, [it[1:]], True]
            else:
                flush()
                res.append(el("C", pts([v for x in it[1:] for v in x])))
            cp = it[3]
            continue
        if it[0] == "L" and run and math.hypot(it[1][0] - cp[0], it[1][1] - cp[1]) < 1e-4:
            cp = it[1]
            continue        # a line without extent does not end an arc
        flush()
        if it[0] == "Z":
            res.append(el("Z"))
            cp = None
        else:
            res.append(el(it[0], pts(list(it[1]))))
            cp = it[1]
    flush()
    return res


def read_pdf(text):
    items, st = [], []
    for t in text.split():
        try:
            st.append(float(t))
            continue
        except ValueError:
            pass
        p = [tuple(st[i:i + 2]) for i in range(0, len(st), 2)]
        n = {"m": 1, "l": 1, "c": 3, "h": 0}.get(t)
        if n is None or n * 2 != len(st):
            return [el("bad")]
        items.append(({"m": "M", "l": "L", "c": "C", "h": "Z"}[t],) + tuple(p))
        st = []
    return absolute(items) if not st else [el("bad")]


def read_norm(np):
    items = []
    for nsp in np.normsubpaths:
        if not nsp.normsubpathitems:
            continue
        items.append(("M", nsp.normsubpathitems[0].atbegin_pt()))
        last = items[-1][1]
        for i in nsp.normsubpathitems:
            if math.dist(i.atbegin_pt(), last) > 1e-4:
                return [el("bad")]
            if hasattr(i, "x3_pt"):
                items.append(("C", (i.x1_pt, i.y1_pt), (i.x2_pt, i.y2_pt), (i.x3_pt, i.y3_pt)))
            else:
                items.append(("L", (i.x1_pt, i.y1_pt)))
            last = i.atend_pt()
        if nsp.closed:
            if math.dist(last, nsp.normsubpathitems[0].atbegin_pt()) > 1e-4:
                return [el("bad")]
            items.append(("Z",))
    return absolute(items)


SVGTOK = re.compile(r"[A-Za-z]|[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?")


def read_svg(d, flip=True):
    """path data as elements; PyX writes every command letter.  Curves approximating circles become arcs."""
    s = -1 if flip else 1
    toks = SVGTOK.findall(d)
    if re.sub(r"[\s,]", "", "".join(toks)) != re.sub(r"[\s,]", "", d):
        return [el("bad")]
    res, i = [], 0
    need = dict(M=2, L=2, C=6, m=2, l=2, c=6, Z=0, z=0, A=7)
    cmds = []
    while i < len(toks):
        c = toks[i]
        n = need.get(c)
        if n is None:
            return [el("bad")]
        try:
            v = [float(t) for t in toks[i + 1:i + 1 + n]]
        except ValueError:
            return [el("bad")]
        if len(v) != n:
            return [el("bad")]
        cmds.append((c.upper() if c == "z" else c, v))
        i += n + 1
    if not any(c in "mlcA" for c, v in cmds):
        return absolute([(c,) + tuple((v[k], s * v[k + 1]) for k in range(0, len(v), 2)) for c, v in cmds])
    for c, v in cmds:
        if c == "A":
            ccw = (v[4] == 0) if flip else (v[4] == 1)
            res.append(el("A", [[q(v[5], 1), q(s * v[6], 1)]], q(v[0], 1) if v[0] == v[1] and v[2] == 0 and v[3] in (0, 1) and v[4] in (0, 1) else BAD,
                          [int(v[3]), int(ccw)]))
        else:
            res.append(el(c, [[q(v[k], 1), q(s * v[k + 1], 1)] for k in range(0, len(v), 2)]))
    return res
