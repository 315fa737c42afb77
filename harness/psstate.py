"""A small PostScript graphics-state interpreter: the list of paint operations of a page with the state they use."""
import copy, math
import psread


class GS:
    def __init__(self):
        self.ctm = (1, 0, 0, 1, 0, 0)
        self.lw, self.cap, self.join, self.miter, self.dash, self.color = 0.02 * 72 / 2.54, 0, 0, 10.0, ([], 0), ("gray", [0.0])
        self.clips = 0
        self.clipboxes = ()
        self.font = None


def mul(m, n):
    """first n then m (as PostScript concat: n's map into m's coordinates)"""
    a, b, c, d, e, f = m
    g, h, i, j, k, l = n
    return (a * g + c * h, b * g + d * h, a * i + c * j, b * i + d * j, a * k + c * l + e, b * k + d * l + f)


def ap(m, x, y):
    return (m[0] * x + m[2] * y + m[4], m[1] * x + m[3] * y + m[5])


def paints(page):
    """[(op, subpaths, state)] with device coordinates; subpaths: lists of (kind, points)"""
    res, stack, gs, path = [], [], GS(), []
    for op, args in psread.ops(page):
        if op in ("gsave", "save"):
            stack.append((copy.copy(gs), list(path)))
        elif op == "grestore":
            gs, path = stack.pop()
        elif op == "newpath":
            path = []
        elif op in ("moveto", "lineto", "curveto"):
            path.append((op[0], [ap(gs.ctm, float(args[i]), float(args[i + 1])) for i in range(0, len(args), 2)]))
        elif op in ("rmoveto", "rlineto", "rcurveto"):
            # relative to the current point
            start = next(i for i in range(len(path) - 1, -1, -1) if path[i][0] == "m") if path else 0
            x, y = path[start][1][0] if path[-1][0] == "z" else path[-1][1][-1]
            m = gs.ctm[:4] + (0, 0)
            path.append((op[1], [(x + u, y + v) for u, v in (ap(m, float(args[i]), float(args[i + 1])) for i in range(0, len(args), 2))]))
        elif op in ("arc", "arcn"):
            # as Bezier curves of a quarter turn at most
            x, y, r, a, b = (float(v) for v in args[:5])
            sign = 1 if op == "arc" else -1
            while (b - a) * sign < 0:
                b += 360 * sign
            n = max(1, int(math.ceil(abs(b - a) / 90 - 1e-9)))
            da = math.radians((b - a) / n)
            h = 4 / 3 * math.tan(da / 4)
            for i in range(n + 1):
                t = math.radians(a) + i * da
                p = x + r * math.cos(t), y + r * math.sin(t)
                if i == 0:
                    path.append(("l" if path else "m", [ap(gs.ctm, *p)]))
                else:
                    u = t - da
                    q = x + r * (math.cos(u) - h * math.sin(u)), y + r * (math.sin(u) + h * math.cos(u))
                    w = x + r * (math.cos(t) + h * math.sin(t)), y + r * (math.sin(t) - h * math.cos(t))
                    path.append(("c", [ap(gs.ctm, *q), ap(gs.ctm, *w), ap(gs.ctm, *p)]))
        elif op == "closepath":
            path.append(("z", []))
        elif op in ("stroke", "fill", "eofill"):
            res.append((op, path, copy.copy(gs)))
            path = []
        elif op == "clip":
            gs.clips += 1
            pts = [q for k, ps in path for q in ps] or [(0, 0)]
            gs.clipboxes += ((min(q[0] for q in pts), min(q[1] for q in pts), max(q[0] for q in pts), max(q[1] for q in pts)),)
        elif op == "concat":
            gs.ctm = mul(gs.ctm, [float(x) for x in args[0]])
        elif op == "setlinewidth":
            gs.lw = float(args[-1])
        elif op == "setlinecap":
            gs.cap = int(args[-1])
        elif op == "setlinejoin":
            gs.join = int(args[-1])
        elif op == "setmiterlimit":
            gs.miter = float(args[-1])
        elif op == "setdash":
            gs.dash = ([float(x) for x in args[0]], float(args[1]))
        elif op in ("setgray", "setrgbcolor", "setcmykcolor", "sethsbcolor"):
            gs.color = (op[3:].replace("color", ""), [float(x) for x in args])
        elif op == "selectfont":
            gs.font = args
        elif op == "show":
            res.append(("show", args, copy.copy(gs)))
    return res


def eps_paints(data):
    f = psread.PSFile(data)
    return paints(f.pages[0])
