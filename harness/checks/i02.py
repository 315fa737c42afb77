"""I02: SVG files are read as SVG prescribes (spec/SVGPath.tla, SVGPathMC.tla, SVGRead.tla, SVGReadTrace.tla)."""
import io, json, math, os, re, shutil, tempfile
import psstate
from vp import guard

HEAD = '<?xml version="1.0"?>\n<svg xmlns="http://www.w3.org/2000/svg" version="1.1" '


def number(r, v):
    """v (a number with few digits) in any form"""
    s = "%.10g" % abs(v)
    x = r.random()
    if x < 0.2 and "." not in s and "e" not in s:
        s = r.choice([s + ".0", s + "e0", s + "E+0", "%se-1" % (s + "0"), s + "."])
    elif x < 0.3:
        s = "%.9ge1" % (abs(v) / 10)
    if s.startswith("0.") and len(s) > 2 and r.random() < 0.5:
        s = s[1:]
    return ("-" if v < 0 else r.choice(["", "", "", "+"])) + s


def joined(r, items):
    out = ""
    for s in items:
        if out:
            sep = r.choice([" ", ",", " ,", ", ", "  ", "\n"])
            if s[0] in "+-" and r.random() < 0.3:
                sep = ""
            elif s[0] == "." and ("." in out.split()[-1].split(",")[-1]) and out[-1].isdigit() and "e" not in out.split()[-1].split(",")[-1].lower() and r.random() < 0.3:
                sep = ""
            out += sep
        out += s
    return out


PHI = {(5, 0): 0, (0, 5): 90, (4, 3): math.degrees(math.atan2(3, 4))}


def pathdata(r, cmds, cur):
    """text of the path data; cur: function giving the current point in front of command i"""
    out, last = "", None
    for i, k in enumerate(cmds):
        c, a = k["c"], list(k["a"])
        if c == "A":
            rx, ry, pc, ps, large, sweep, dx, dy, span = a
            if span == 6:
                large = r.randint(0, 1)
                if r.random() < 0.3:
                    # radii which are too small for the distance are scaled up
                    rx, ry = rx / 2, ry / 2
            phi = PHI[(pc, ps)]
            if rx == ry:
                phi = r.choice([0, 30, phi])
            if not k["rel"]:
                x, y = cur(i)
                dx, dy = dx + x, dy + y
            args = [number(r, rx), number(r, ry), "%.12g" % phi, str(large), str(sweep), number(r, dx), number(r, dy)]
            if r.random() < 0.2:
                args[3:6] = [args[3] + args[4] + args[5].lstrip("+")]
        else:
            args = [number(r, v) for v in a]
        letter = c.lower() if k["rel"] else c
        if c == "Z":
            letter = r.choice("zZ")
        text = joined(r, args)
        implicit = last in (letter, {"L": "M", "l": "m"}.get(letter)) and letter not in "MmzZ" and r.random() < 0.6
        if implicit:
            # the letter is not repeated
            out += r.choice([" ", ",", "\n"]) + text
        else:
            out += r.choice(["", " "]) + letter + r.choice(["", "", " "]) + text
            last = letter
    return out.strip()


def paths(d):
    """subpaths of the recorded items: (points and curves from the start, closed)"""
    res = []
    for k, pts in d:
        if k == "m":
            res.append([pts[0], [], False])
        elif k == "z":
            res[-1][2] = True
        else:
            if res[-1][2]:
                res.append([res[-1][0], [], False])
            res[-1][1].append((k, pts))
    return res


def dist(p, q):
    return math.hypot(p[0] - q[0], p[1] - q[1])


def sample(p0, seg):
    if seg[0] == "l":
        return [p0, seg[1][0]]
    p1, p2, p3 = seg[1]
    return [tuple((1 - t) ** 3 * p0[i] + 3 * (1 - t) ** 2 * t * p1[i] + 3 * (1 - t) * t * t * p2[i] + t ** 3 * p3[i] for i in (0, 1)) for t in (j / 40 for j in range(41))]


def same(got, want, eps=0.02):
    """compare recorded subpaths with the geometry of the specification (page coordinates)"""
    exp = []
    for g in want:
        if g[0] == "m":
            exp.append([g[1], [], False])
        elif g[0] == "z":
            exp[-1][2] = True
        else:
            exp[-1][1].append(g)
    # subpaths without extent paint nothing (or at most a dot)
    exp = [e for e in exp if any(dist(g[-1], e[0]) > eps or g[0] != "l" for g in e[1])]
    got = [g for g in got if any(dist(s[1][-1], g[0]) > eps or s[0] != "l" for s in g[1])]
    if len(exp) != len(got):
        return "%d subpaths instead of %d" % (len(got), len(exp))
    for (p0, segs, closed), (q0, items, z) in zip(got, exp):
        if dist(p0, q0) > eps:
            return "begins at %s instead of %s" % (p0, q0)
        if closed != z:
            return "closed" if closed else "not closed"
        segs = [s for i, s in enumerate(segs) if s[0] == "c" or dist(s[1][0], segs[i - 1][1][-1] if i else p0) > eps]
        cur, i = p0, 0
        last = items[-1] if items else None
        for g in items:
            if g[0] == "l" and dist(cur, g[1]) <= eps:
                continue
            if i >= len(segs):
                if z and g is last and g[0] == "l" and dist(g[1], q0) <= eps:
                    continue
                return "ends early"
            if g[0] == "l":
                if segs[i][0] != "l" or dist(segs[i][1][0], g[1]) > eps:
                    return "line to %s instead of %s" % (segs[i], g[1])
                i += 1
            elif g[0] == "c":
                if segs[i][0] != "c" or any(dist(a, b) > eps for a, b in zip(segs[i][1], g[1:])):
                    return "curve %s instead of %s" % (segs[i], g[1:])
                i += 1
            else:
                pts = [cur]
                while i < len(segs):
                    if segs[i][0] != "c":
                        return "%s instead of an arc to %s" % (segs[i], g[2])
                    pts += sample(cur, segs[i])[1:]
                    cur = segs[i][1][-1]
                    i += 1
                    if dist(cur, g[2]) <= eps:
                        break
                else:
                    return "arc to %s instead of %s" % (cur, g[2])
                k = 0
                for v in g[1]:
                    while k < len(pts) and near(v, pts, k) > 0.15:
                        k += 1
                    if k >= len(pts):
                        return "the arc to %s misses %s" % (g[2], v)
            cur = g[-1]
        rest = segs[i:]
        if any(dist(s[1][-1], q0) > eps or s[0] != "l" for s in rest):
            return "continues with %s" % (rest,)
    return ""


def near(v, pts, k):
    """distance of v to the piece of the polygon around point k"""
    best = dist(v, pts[k])
    if k + 1 < len(pts):
        (x0, y0), (x1, y1) = pts[k], pts[k + 1]
        l = (x1 - x0) ** 2 + (y1 - y0) ** 2
        t = max(0, min(1, ((v[0] - x0) * (x1 - x0) + (v[1] - y0) * (y1 - y0)) / l)) if l else 0
        best = min(best, dist(v, (x0 + t * (x1 - x0), y0 + t * (y1 - y0))))
    return best


def written(svg, tmp, **kw):
    """the paints of a page which contains the file only"""
    from pyx import svgfile, canvas
    name = os.path.join(tmp, "a.svg")
    with open(name, "w") as f:
        f.write(svg)
    c = canvas.canvas()
    s = svgfile.svgfile_pt(kw.pop("x", 0), kw.pop("y", 0), name, parsed=True, **kw)
    c.insert(s)
    out = io.BytesIO()
    c.writeEPSfile(out)
    b = s.bbox()
    return psstate.eps_paints(out.getvalue()), [b.llx_pt, b.lly_pt, b.urx_pt, b.ury_pt]


H = 1000


def collect(tmp, texts, found, failed, budget):
    """what is painted for each path data; those which cannot be read are isolated (some of them)"""
    body = "".join('<path d="%s" fill="none" stroke="#%06x"/>\n' % (t, i) for i, t in texts)
    o = guard(written, HEAD + 'width="%d" height="%d">\n%s</svg>' % (H, H, body), tmp, resolution=72)
    if o.ok:
        for i, t in texts:
            found[i] = []
        for op, d, gs in o.value[0]:
            v = gs.color[1] if len(gs.color[1]) == 3 else gs.color[1] * 3
            found[sum(int(round(255 * x)) << s for x, s in zip(v, (16, 8, 0)))] = d
    elif len(texts) == 1:
        failed[texts[0][0]] = o.exc
    elif len(failed) < budget:
        h = len(texts) // 2
        collect(tmp, texts[:h], found, failed, budget)
        collect(tmp, texts[h:], found, failed, budget)


def replay(ctx, tmp):
    r = ctx.rng
    m = ctx.model_check("SVGPathMC", constants=dict(MaxLen=3, Arcs=True), invariants=["Relative", "Items", "Arcing", "Emit"], label="all path data", heap="8g")
    cases = [json.loads(p[1:]) for p in m.prints]
    n = ctx.n(8000, 60000)
    if len(cases) > n:
        arcs = [c for c in cases if len(c["cmds"]) == 2]
        cases = arcs + r.sample([c for c in cases if len(c["cmds"]) > 2], max(0, n - len(arcs)))
    size = 200
    for base in range(0, len(cases), size):
        part = cases[base:base + size]
        texts = []
        for c in part:
            # the current point in front of every command
            starts = []
            cur, sub = (0, 0), (0, 0)
            geo = [g for g in c["geo"]]
            # items correspond to the commands (besides the begins of continued subpaths)
            j = 0
            for k in c["cmds"]:
                starts.append(cur)
                if k["c"] != "M" and geo[j][0] == "m":
                    j += 1
                g = geo[j]
                j += 1
                if g[0] == "m":
                    cur = sub = (g[1][0] / 6, g[1][1] / 6)
                elif g[0] == "z":
                    cur = sub
                else:
                    cur = (g[-1][0] / 6, g[-1][1] / 6)
            texts.append(pathdata(r, c["cmds"], starts.__getitem__))
        # page coordinates of (x, y) are (x, H - y)
        flip = lambda p: (p[0] / 6, H - p[1] / 6)
        ctx.traces += len(part)
        found, failed = {}, {}
        collect(tmp, list(enumerate(texts, 1)), found, failed, 30)
        for i, (c, t) in enumerate(zip(part, texts)):
            kinds = "".join(k["c"].lower() if k["rel"] else k["c"] for k in c["cmds"][-2:])
            if i + 1 in failed:
                ctx.violation("path:failed:%s" % failed[i + 1][:60], "reading %r fails: %s" % (t, failed[i + 1]), c)
                continue
            if i + 1 not in found:
                continue
            want = [[g[0]] + [flip(p) for p in g[1:]] if g[0] != "a" else ["a", [flip(p) for p in g[1]], flip(g[2])] for g in c["geo"]]
            why = same(paths(found[i + 1]), want)
            if why:
                ctx.violation("path:%s:%s" % (kinds, " ".join(why.split()[:2])), "path data %r: %s" % (t, why), c)
        if len(ctx.violations) > 100:
            break
    ctx.sample({"case": cases[len(cases) // 2]}, 2)


# --- documents ---

NAMES = "aliceblue antiquewhite aqua aquamarine azure beige bisque black blanchedalmond blue blueviolet brown burlywood cadetblue chartreuse chocolate coral cornflowerblue cornsilk crimson cyan darkblue darkcyan darkgoldenrod darkgray darkgreen darkgrey darkkhaki darkmagenta darkolivegreen darkorange darkorchid darkred darksalmon darkseagreen darkslateblue darkslategray darkslategrey darkturquoise darkviolet deeppink deepskyblue dimgray dimgrey dodgerblue firebrick floralwhite forestgreen fuchsia gainsboro ghostwhite gold goldenrod gray green greenyellow grey honeydew hotpink indianred indigo ivory khaki lavender lavenderblush lawngreen lemonchiffon lightblue lightcoral lightcyan lightgoldenrodyellow lightgray lightgreen lightgrey lightpink lightsalmon lightseagreen lightskyblue lightslategray lightslategrey lightsteelblue lightyellow lime limegreen linen magenta maroon mediumaquamarine mediumblue mediumorchid mediumpurple mediumseagreen mediumslateblue mediumspringgreen mediumturquoise mediumvioletred midnightblue mintcream mistyrose moccasin navajowhite navy oldlace olive olivedrab orange orangered orchid palegoldenrod palegreen paleturquoise palevioletred papayawhip peachpuff peru pink plum powderblue purple red rosybrown royalblue saddlebrown salmon sandybrown seagreen seashell sienna silver skyblue slateblue slategray slategrey snow springgreen steelblue tan teal thistle tomato turquoise violet wheat white whitesmoke yellow yellowgreen".split()
ANGLES = [((0, 1), 90), ((-1, 0), 180), ((0, -1), 270), ((0, -1), -90), ((3, 4), math.degrees(math.atan2(4, 3))), ((4, 3), math.degrees(math.atan2(3, 4))), ((4, -3), -math.degrees(math.atan2(3, 4))), ((-3, 4), math.degrees(math.atan2(4, -3)))]


class Doc:
    def __init__(self, r, names):
        self.r, self.names = r, names
        self.res = r.choice([72, 72, 96, 90])
        self.ev, self.text = [], ""

    # numbers: (numerator, denominator); lengths: [numerator, denominator, unit]
    def num(self, n, d=1):
        return (self.r.choice(["%.10g"] * 6 + ["%.6e", "+%.6f"]) if n >= 0 else "%.10g") % (n / d)

    def length(self, lo, hi, half=False):
        r = self.r
        n, d, u = r.randint(lo, hi), 1, ""
        if half and r.random() < 0.4:
            n, d = 2 * n + (1 if n < hi else 0), 2
        elif r.random() < 0.15 and n:
            u = r.choice(["px", "pt", "in", "pc", "mm", "cm"])
            if u == "in":
                n, d = n * 1, 96
                # quarter inches
                n, d = max(1, n // 24), 4
            elif u == "pc":
                n = max(1, n // 16)
            elif u == "mm":
                n, d = 127 * max(1, n // 48), 10
            elif u == "cm":
                n, d = 127 * max(1, n // 96), 50
        return [n, d, u]

    def lt(self, v):
        return self.num(v[0], v[1]) + v[2]

    def trafo(self, state):
        r = self.r
        c = r.choice(["translate", "translate", "scale", "rotate", "rotate", "skewX", "skewY", "matrix"])
        sep = lambda: r.choice([",", " ", ", ", " , "])
        if c == "translate":
            a = [self.length(-40, 60) for i in range(r.randint(1, 2))]
            args = [self.lt(v) for v in a]
        elif c == "scale":
            a = [r.choice([(2, 1), (1, 2), (3, 2), (-1, 1), (1, 1)]) for i in range(r.randint(1, 2))]
            args = [self.num(*v) for v in a]
        elif c == "rotate":
            (co, si), phi = r.choice(ANGLES if state["rot"] < 2 else ANGLES[:4])
            if abs(co) > 1:
                state["rot"] += 1
                a = [(co, 5), (si, 5)]
            else:
                a = [(co, 1), (si, 1)]
            args = ["%.12g" % phi]
            if r.random() < 0.5:
                b = [self.length(-20, 60) for i in range(2)]
                a += b
                args += [self.lt(v) for v in b]
        elif c in ("skewX", "skewY"):
            v = r.choice([1, -1])
            a, args = [(v, 1)], ["%d" % (45 * v)]
        else:
            a = [r.choice([(1, 1), (2, 1), (0, 1), (-1, 1), (1, 2)]) for i in range(4)]
            if a[0][0] * a[3][0] * a[1][1] * a[2][1] == a[1][0] * a[2][0] * a[0][1] * a[3][1]:
                a = [(1, 1), (0, 1), (1, 1), (1, 1)]
            e = [self.length(-40, 60) for i in range(2)]
            args = [self.num(*v) for v in a] + [self.lt(v) for v in e]
            a = a + e
        text = "%s%s(%s%s%s)" % (c, r.choice(["", "", " "]), r.choice(["", " "]), "".join(x + (sep() if i < len(args) - 1 else "") for i, x in enumerate(args)), r.choice(["", " "]))
        return {"c": c, "a": a}, text

    def paint(self, kind):
        r = self.r
        f = r.choice(["name", "name", "hex3", "hex6", "rgb", "percent", "none", "name"])
        if f == "none":
            return {"f": f}, "none"
        if f == "name":
            n = self.names.pop() if self.names else r.choice(NAMES)
            return {"f": f, "n": n}, n
        if f == "hex3":
            v = [r.randint(0, 15) for i in range(3)]
            t = "#%x%x%x" % tuple(v)
            return {"f": f, "v": v}, r.choice([t, t.upper()])
        v = [r.choice([0, 255, r.randint(0, 255)]) for i in range(3)] if f != "percent" else [r.choice([0, 100, r.randint(0, 100)]) for i in range(3)]
        if f == "hex6":
            t = "#%02x%02x%02x" % tuple(v)
            return {"f": f, "v": v}, r.choice([t, t.upper()])
        p = "%" if f == "percent" else ""
        return {"f": f, "v": v}, r.choice(["rgb(%d%s,%d%s,%d%s)", "rgb( %d%s, %d%s , %d%s )"]) % (v[0], p, v[1], p, v[2], p)

    def attrs(self, state, root=False, p=0.3):
        """(attributes of the specification, [(name, text)])"""
        r = self.r
        a, t = {}, []

        def some(name, key, make, inherit=0.1):
            if r.random() < p:
                if r.random() < inherit:
                    t.append((name, "inherit"))
                else:
                    v, x = make()
                    a[key] = v
                    t.append((name, x))

        if not root and r.random() < 0.6 * p + 0.2:
            ts = [self.trafo(state) for i in range(r.choice([1, 1, 2, 3]))]
            a["transform"] = [x[0] for x in ts]
            t.append(("transform", r.choice([" ", ",", ", ", ""]).join(x[1] for x in ts)))
        some("fill", "fill", lambda: self.paint("fill"))
        some("stroke", "stroke", lambda: self.paint("stroke"))
        if not root and r.random() < 0.3 and "stroke" not in a:
            t[:] = [x for x in t if x[0] != "stroke"]
            a["stroke"], x = {"f": "name", "n": "navy"}, "navy"
            t.append(("stroke", x))

        def width():
            v = r.choice([[1, 1, ""], [2, 1, ""], [1, 2, ""], [3, 2, ""], [3, 1, "pt"], [127, 100, "mm"], [2, 1, "px"]])
            return v, self.lt(v)

        def dash():
            if r.random() < 0.15:
                return [], "none"
            d = [[r.randint(1, 8), r.choice([1, 2]), r.choice(["", "", "", "pt", "px"])] for i in range(r.randint(1, 4))]
            return d, "".join(self.lt(v) + (r.choice([",", " ", ", "]) if i < len(d) - 1 else "") for i, v in enumerate(d))

        def offset():
            v = [r.randint(0, 9), 1, r.choice(["", "", "pt"])]
            return v, self.lt(v)

        def pick(*names):
            v = r.choice(names)
            return v, v

        def miter():
            v = r.choice([(1, 1), (4, 1), (10, 1), (5, 2), (3, 2)])
            return v, self.num(*v)
        some("stroke-width", "width", width)
        some("stroke-linecap", "cap", lambda: pick("butt", "round", "square"))
        some("stroke-linejoin", "join", lambda: pick("miter", "round", "bevel"))
        some("stroke-miterlimit", "miter", miter)
        some("stroke-dasharray", "dash", dash)
        some("stroke-dashoffset", "off", offset)
        some("fill-rule", "rule", lambda: pick("nonzero", "evenodd"))
        r.shuffle(t)
        return a, t

    def tag(self, name, t, end):
        self.text += "<%s%s%s\n" % (name, "".join(self.r.choice([' %s="%s"', " %s='%s'", '\n  %s = "%s"']) % x for x in t), end)

    def shape(self, state):
        r = self.r
        c = r.choice(["line", "rect", "rect", "circle", "ellipse", "polyline", "polygon", "path"])
        L = self.length
        # points in general position
        if c == "line":
            v = [L(-50, 100), L(0, 100), L(101, 200), L(0, 100)]
            names = ["x1", "y1", "x2", "y2"]
        elif c == "rect":
            v = [L(-20, 100), L(0, 100), r.choice([L(20, 100, True)] * 9 + [[0, 1, ""]]), r.choice([L(20, 100, True)] * 9 + [[0, 1, ""]])]
            names = ["x", "y", "width", "height", "rx", "ry"]
            rnd = lambda: r.choice([[], [], [0, 1, ""], L(1, 9, True), L(1, 30), L(60, 90)])
            v += [rnd(), rnd()]
        elif c == "circle":
            v, names = [L(-20, 100), L(0, 100), r.choice([L(5, 60, True)] * 9 + [[0, 1, ""]])], ["cx", "cy", "r"]
        elif c == "ellipse":
            v, names = [L(-20, 100), L(0, 100), r.choice([L(5, 60, True)] * 9 + [[0, 1, ""]]), r.choice([L(5, 60, True)] * 9 + [[0, 1, ""]])], ["cx", "cy", "rx", "ry"]
        if c in ("polyline", "polygon", "path"):
            n = r.choice([2, 3, 3, 4, 5]) if c != "path" else r.randint(3, 5)
            if c != "path" and r.random() < 0.08:
                n = r.choice([0, 1])
            v, last = [], None
            for i in range(n):
                # a zigzag
                v += [L(60 * i, 60 * i + 40) if r.random() < 0.8 else [60 * i, 1, ""], L(0, 25) if i % 2 else L(60, 90)]
                if v[-2][2]:
                    v[-2] = [v[-2][0] if v[-2][1] == 1 else 60 * i + 1, 1, ""]
                if v[-1][2]:
                    v[-1] = [10 if i % 2 else 70, 1, ""]
            nums = [self.num(x[0], x[1]) for x in v]
            if c == "path":
                t = [("d", "M" + " L ".join(nums[2 * i] + r.choice([" ", ","]) + nums[2 * i + 1] for i in range(n)) + r.choice(["z", " Z"]))]
            else:
                t = [("points", r.choice([" ", ", ", "\n"]).join(nums[2 * i] + r.choice([" ", ","]) + nums[2 * i + 1] for i in range(n)))]
        else:
            t = []
            for n, x in zip(names, v):
                if x:
                    if x[0] == 0 and n in ("x", "y", "cx", "cy") and r.random() < 0.5:
                        continue
                    t.append((n, self.lt(x)))
        a, at = self.attrs(state)
        t += at
        r.shuffle(t)
        self.ev.append({"k": "shape", "c": c, "v": v, "a": a})
        if r.random() < 0.8:
            self.tag(c, t, "/>")
        else:
            self.tag(c, t, "></%s>" % c)

    def group(self, depth, state):
        r = self.r
        a, t = self.attrs(state)
        self.ev.append({"k": "g", "a": a})
        self.tag("g", t, ">")
        self.body(depth + 1, state)
        self.text += "</g>"
        self.ev.append({"k": "close"})

    def body(self, depth, state):
        for i in range(self.r.randint(1, 4 if depth == 0 else 3)):
            if depth < 3 and self.r.random() < 0.35:
                self.group(depth, dict(state))
            else:
                self.shape(dict(state))

    def make(self):
        r = self.r
        w, h = r.randint(10, 40) * 10, r.randint(10, 40) * 10
        box, ws, hs = [], [w, 1, r.choice(["", "", "px"])], [h, 1, ""]
        k = None
        if r.random() < 0.5:
            box = [(r.choice([0, -30, 50, 100]), 1), (r.choice([0, 20, -40]), 1), (w, 1), (h, 1)]
            k = r.choice([(1, 1), (2, 1), (1, 2), (3, 2)])
            ws, hs = [w * k[0], k[1], ""], [h * k[0], k[1], ""]
            if r.random() < 0.2:
                ws = []
                hs = []
        elif r.random() < 0.2:
            ws, hs = [127, 10, "cm"], [9, 2, "in"]
        a, t = self.attrs({"rot": 0}, root=True, p=0.15)
        if ws:
            t += [("width", self.lt(ws)), ("height", self.lt(hs))]
        if box:
            t.append(("viewBox", r.choice([" ", ",", ", "]).join(self.num(*x) for x in box)))
        r.shuffle(t)
        self.text = r.choice(['<?xml version="1.0"?>\n', '<?xml version="1.0" encoding="UTF-8" standalone="no"?>\n<!-- comment -->\n', ""])
        self.tag("svg", [("xmlns", "http://www.w3.org/2000/svg"), ("version", "1.1")] + t, ">")
        f = {"x": r.choice([0, 20, -30]), "y": r.choice([0, 15]), "w": [], "h": [], "ratio": []}
        x = r.random()
        if x < 0.2:
            f["w"] = (r.choice([100, 200, 300]), 1)
            if r.random() < 0.4:
                f["ratio"] = r.choice([(1, 1), (2, 1), (1, 2)])
        elif x < 0.35:
            f["h"] = (r.choice([100, 200, 300]), 1)
            if r.random() < 0.4:
                f["ratio"] = r.choice([(1, 1), (2, 1), (1, 2)])
        elif x < 0.5:
            f["w"], f["h"] = (r.choice([100, 200, 300]), 1), (r.choice([100, 200, 300]), 1)
        self.ev.append({"k": "svg", "a": a, "v": {"w": ws, "h": hs, "box": box}, "file": f, "res": self.res})
        self.body(0, {"rot": 0})
        self.text += "</svg>\n"
        self.ev.append({"k": "end"})
        kw = {"x": f["x"], "y": f["y"], "resolution": self.res}
        for key, name in (("w", "width_pt"), ("h", "height_pt")):
            if f[key]:
                kw[name] = f[key][0] / f[key][1]
        if f["ratio"]:
            kw["ratio"] = f["ratio"][0] / f["ratio"][1]
        return kw


def collinear(ps):
    x0, y0 = ps[0]
    x1, y1 = max(ps, key=lambda p: dist(p, ps[0]))
    return all(abs((x1 - x0) * (y - y0) - (y1 - y0) * (x - x0)) < 1e-3 * (1 + dist(ps[0], (x1, y1))) for x, y in ps)


def recorded(op, d, gs):
    subs = paths(d)
    flat = []
    for p0, items, closed in subs:
        pts, cur = [p0], p0
        for seg in items:
            pts += sample(cur, seg)[1:]
            cur = seg[1][-1]
        flat.append(pts)
    allp = [p for ps in flat for p in ps] or [(0, 0)]
    area = 0
    for ps in flat:
        for (x0, y0), (x1, y1) in zip(ps, ps[1:] + ps[:1]):
            area += (x0 * y1 - x1 * y0) / 2
    ext = []
    for u in ((1, 0), (0, 1), (1, 1), (1, -1)):
        vs = [u[0] * x + u[1] * y for x, y in allp]
        ext.append([int(round(100 * min(vs))), int(round(100 * max(vs)))])
    v = gs.color[1] if len(gs.color[1]) == 3 else gs.color[1] * 3
    c = lambda x: int(round(100 * x))
    lw = gs.lw or 1e-9
    return {"op": op, "curved": any(s[0] == "c" for p in subs for s in p[1]),
            "subs": [{"closed": z, "ps": [[c(x), c(y)] for x, y in [p0] + [s[1][-1] for s in items]]} for p0, items, z in subs] if all(s[0] == "l" for p in subs for s in p[1]) else [{"closed": z, "ps": []} for p0, items, z in subs],
            "ext": ext, "area": int(round(abs(area))), "col": [int(round(1000 * x)) for x in v], "pen": [int(round(1000 * lw * x)) for x in gs.ctm[:4]],
            "cap": gs.cap, "join": gs.join, "miter": int(round(100 * gs.miter)), "dash": [int(round(1000 * x / lw)) for x in gs.dash[0]] if any(gs.dash[0]) else [], "off": int(round(1000 * gs.dash[1] / lw)),
            "clips": [[c(x) for x in b] for b in gs.clipboxes], "flat": op != "stroke" and collinear(allp)}


def times(m, n):
    return psstate.mul(m, n)


def small(doc):
    """transformations within the range of the integers of TLC"""
    stack = [(1, 0, 0, 1, 0, 0)]
    unit = {"in": doc.res, "pc": doc.res / 6, "pt": doc.res / 72, "mm": doc.res / 25.4, "cm": doc.res / 2.54}
    for e in doc.ev:
        if e["k"] == "close":
            stack.pop()
        if e["k"] not in ("g", "shape"):
            continue
        m = stack[-1]
        for t in e["a"].get("transform", []):
            a = [x[0] / x[1] * unit.get(x[2] if len(x) > 2 else "", 1) for x in t["a"]]
            c = t["c"]
            if c == "translate":
                n = [(1, 0, 0, 1, a[0], a[1] if len(a) > 1 else 0)]
            elif c == "scale":
                n = [(a[0], 0, 0, a[-1], 0, 0)]
            elif c == "rotate":
                x, y = a[2:] or (0, 0)
                n = [(1, 0, 0, 1, x, y), (a[0], a[1], -a[1], a[0], 0, 0), (1, 0, 0, 1, -x, -y)]
            elif c == "skewX":
                n = [(1, 0, a[0], 1, 0, 0)]
            elif c == "skewY":
                n = [(1, a[0], 0, 1, 0, 0)]
            else:
                n = [tuple(a)]
            for x in n:
                m = times(m, x)
        if max(map(abs, m[:4])) > 4 or max(map(abs, m[4:])) > 900 or abs(m[0] * m[3] - m[1] * m[2]) < 0.06:
            return False
        if e["k"] == "g":
            stack.append(m)
    return True


def embedded(svg, tmp, **kw):
    """bounding box, matrix and content of an SVG file included as it is"""
    from pyx import svgfile, canvas
    from xml.etree import ElementTree as ET
    name = os.path.join(tmp, "a.svg")
    with open(name, "w") as f:
        f.write(svg)
    c = canvas.canvas()
    s = svgfile.svgfile_pt(kw.pop("x", 0), kw.pop("y", 0), name, **kw)
    c.insert(s)
    out = io.BytesIO()
    c.writeSVGfile(out)
    root = ET.fromstring(out.getvalue())
    NS = "{http://www.w3.org/2000/svg}"

    def find(el, m):
        for x in el:
            n = m
            if "transform" in x.attrib:
                mo = re.fullmatch(r"matrix\(([^)]*)\)", x.attrib["transform"])
                n = psstate.mul(m, [float(v) for v in mo.group(1).split(",")])
            if x.tag == NS + "svg":
                return x, n
            if x.tag == NS + "g":
                q = find(x, n)
                if q:
                    return q
    # the page: one unit of the root is a point
    vb = [float(v) for v in root.attrib["viewBox"].split()]
    assert all(abs(float(root.attrib[k][:-2]) - v) < 1e-6 and root.attrib[k].endswith("pt") for k, v in zip(("width", "height"), vb[2:]))
    el, m = find(root, (1, 0, 0, -1, 0, 0))

    def canon(e):
        return e.tag, sorted(e.attrib.items()), [canon(x) for x in e]
    b = s.bbox()
    return [int(round(100 * x)) for x in (b.llx_pt, b.lly_pt, b.urx_pt, b.ury_pt)], [int(round(1000 * x)) for x in m[:4]] + [int(round(100 * x)) for x in m[4:]], canon(el) == canon(ET.fromstring(svg))


def documents(ctx, tmp):
    r = ctx.rng
    traces = []
    names = list(NAMES)
    r.shuffle(names)
    while len(traces) < ctx.n(1200, 12000):
        doc = Doc(r, names)
        kw = doc.make()
        if not small(doc):
            continue
        o = guard(written, doc.text, tmp, **kw)
        root = doc.ev[0]
        root["failed"] = "" if o.ok else o.exc
        ps, box = o.value if o.ok else ([], [0] * 4)
        root["rec"] = [q for q in (recorded(*p) for p in ps) if not q.pop("flat")]
        root["bbox"] = [int(round(100 * x)) for x in box]
        traces.append({"ev": doc.ev, "doc": doc.text, "kw": {k: v for k, v in kw.items()}})
    for i in range(ctx.n(150, 1500)):
        doc = Doc(r, names)
        kw = doc.make()
        e = dict(doc.ev[0], k="embed", failed="", bbox=[0] * 4, m=[0] * 6, same=False)
        if not e["v"]["w"] or e["v"]["w"][2] == "cm":
            continue
        o = guard(embedded, doc.text, tmp, **kw)
        if o.ok:
            e["bbox"], e["m"], e["same"] = o.value
        else:
            e["failed"] = o.exc
        traces.append({"ev": [e, {"k": "end"}], "doc": doc.text, "kw": kw})
    texts = [t.pop("doc") for t in traces]
    for i, t in enumerate(traces):
        t["n"] = i
    ctx.traces += len(traces)

    def key(t, l, why):
        e = t["ev"][l - 1]
        return "doc:%s:%s" % (e.get("c", e["k"]), why if why != "failed" or e["k"] == "embed" else "failed " + t["ev"][0]["failed"][:60])

    ctx.validate("SVGReadTrace", [{"ev": t["ev"], "n": t["n"]} for t in traces], key=key, describe=lambda t, l, why: "%s at %s of\n%s%s" % (why, {k: v for k, v in t["ev"][l - 1].items() if k != "rec"}, texts[t["n"]], traces[t["n"]]["kw"]), chunk=300, heap="3g")
    ctx.sample({"doc": texts[len(texts) // 2]}, 2)


def run(ctx):
    tmp = tempfile.mkdtemp(prefix="verif-i02-")
    try:
        if not os.environ.get("I02_DOCS"):
            replay(ctx, tmp)
        documents(ctx, tmp)
    finally:
        shutil.rmtree(tmp)
