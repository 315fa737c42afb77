"""Polyline paths of spec/Poly.tla as PyX paths (in PostScript points, 60 units of the model per point)."""
S = 60
R = 60000


def build(r, path, kind="path", curves=0.0, uniform=True):
    """a PyX path: lines, or curves which are straight lines"""
    from pyx import path as pm
    items = []
    for sub in path:
        pts = [(x / S, y / S) for x, y in sub["p"]]
        items.append(pm.moveto_pt(*pts[0]))
        if sub["z"] and pts[-1] != pts[0] and r.random() < 0.3:
            pts.append(pts[0])
        cur = pts[0]
        for p in pts[1:]:
            x = r.random()
            if x < curves:
                f, g = (1 / 3, 2 / 3) if uniform else r.choice([(0.2, 0.5), (0.5, 0.8), (1 / 3, 2 / 3), (0.4, 0.6)])
                c = [cur[0] + f * (p[0] - cur[0]), cur[1] + f * (p[1] - cur[1]), cur[0] + g * (p[0] - cur[0]), cur[1] + g * (p[1] - cur[1]), p[0], p[1]]
                if r.random() < 0.5:
                    items.append(pm.curveto_pt(*c))
                else:
                    items.append(pm.rcurveto_pt(*[a - cur[i % 2] for i, a in enumerate(c)]))
            elif x < curves + 0.3 * (1 - curves):
                items.append(pm.rlineto_pt(p[0] - cur[0], p[1] - cur[1]))
            else:
                items.append(pm.lineto_pt(*p))
            cur = p
        if sub["z"]:
            items.append(pm.closepath())
    p = pm.path(*items)
    return p.normpath() if kind == "normpath" else p


def rd(x):
    return int(round(x * R))


def shape(p):
    """recorded shape of a (norm)path"""
    res = []
    n = p.normpath()
    for sub in (n[i] for i in range(len(n))):
        pts = [sub.atbegin_pt()] + [sub[i].atend_pt() for i in range(len(sub))]
        if sub.closed and len(pts) > 1 and max(abs(a - b) for a, b in zip(pts[0], pts[-1])) < 1e-4:
            pts.pop()
        res.append(dict(p=[[rd(x), rd(y)] for x, y in pts], z=bool(sub.closed)))
    return res


STEPS = [(1, 0), (0, 1), (-1, 0), (0, -1)]


def random_path(r, maxsubs=3, dots=True, maxsegs=4):
    """a polyline path of the model"""
    path = []
    for i in range(r.choice([1, 1, 2, maxsubs])):
        p = (S * r.randint(-8, 8), S * r.randint(-8, 8))
        pts = [p]
        for j in range(r.randint(1, maxsegs)):
            if r.random() < 0.7:
                d, n = r.choice(STEPS), S * r.choice([1, 2, 3, 4, 5, 6, 10])
                q = (pts[-1][0] + d[0] * n, pts[-1][1] + d[1] * n)
            else:
                a, b, n = r.choice([(3, 4), (4, 3)]) + (S * r.choice([1, 2]),)
                q = (pts[-1][0] + r.choice([1, -1]) * a * n, pts[-1][1] + r.choice([1, -1]) * b * n)
            pts.append(q)
        z = r.random() < 0.4
        if z:
            # close it by axis-parallel lines
            if len(pts) == 2 or (pts[-1][0] != pts[0][0] and pts[-1][1] != pts[0][1]):
                pts.append((pts[-1][0], pts[0][1]) if pts[-1][1] != pts[0][1] else (pts[-1][0], pts[0][1] + 2 * S))
            if pts[-1] == pts[0]:
                pts.pop()
            if len(pts) > 1 and pts[-1] == pts[-2]:
                pts.pop()
            x, y = abs(pts[-1][0] - pts[0][0]), abs(pts[-1][1] - pts[0][1])
            if len(pts) < 2 or not (x == 0 or y == 0 or 4 * x == 3 * y or 3 * x == 4 * y):
                z = False
        path.append(dict(p=[list(q) for q in pts], z=z))
    if dots and r.random() < 0.15:
        # a mere moveto: only at the end of a path
        path[-1].update(p=path[-1]["p"][:1], z=False)
    return path


def length(path):
    t = 0
    for sub in path:
        pts = sub["p"] + ([sub["p"][0]] if sub["z"] and sub["p"][-1] != sub["p"][0] else [])
        for a, b in zip(pts, pts[1:]):
            t += round(((a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2) ** 0.5)
    return t
