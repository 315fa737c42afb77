"""DVI, TFM and VF files assembled from programs of spec/DVI.tla, and what PyX paints for their pages."""
import io, os, struct, psread

PSFONTS = ["Courier", "Helvetica", "Times-Roman", "Symbol"]
UNIT = 72 / 72.27 / 65536


def sint(n, k):
    return (n & ((1 << (8 * k)) - 1)).to_bytes(k, "big")


def widthof(n, signed):
    for k in (1, 2, 3, 4):
        if signed and -(1 << (8 * k - 1)) <= n < 1 << (8 * k - 1) or not signed and 0 <= n < 1 << (8 * k):
            return k
    raise ValueError(n)


def sized(r, base, n, signed, first=1):
    k = max(first, widthof(n, signed))
    k = r.choice(range(k, 5)) if r.random() < 0.4 else k
    return bytes([base + k - 1]) + sint(n, k)


def fntdef(r, num, name, size, design, check=0):
    k = 4 if num < 0 else max(widthof(num, False), r.choice([1, 1, 2, 3, 4]))
    n = name.encode()
    area = r.choice([0, 0]) if n else 0
    return bytes([242 + k]) + sint(num, k) + struct.pack(">lll", check, size, design) + bytes([area, len(n) - area]) + n


def special(c):
    if c[0] == "color":
        return b"PyX:color_begin " + c[1].encode()
    if c[0] == "rotate":
        return b"PyX:rotate_begin %d" % (90 * c[1])
    if c[0] == "scale":
        return b"PyX:scale_begin %d %d" % (c[1], c[2])
    if c[0] == "marker":
        return b"PyX:marker " + c[1].encode()
    if c[0] == "eps":
        return b"PyX:epsinclude " + c[3].encode()
    return c[1].encode("latin1")


def assemble(r, prog, unit=1, endings=None, design=None):
    """bytes of a program (a list of commands of the specification)"""
    out, open_ = [], []
    for c in prog:
        op = c[0]
        if op == "set":
            out.append(bytes([c[1]]) if c[1] < 128 and r.random() < 0.7 else sized(r, 128, c[1], False))
        elif op == "put":
            out.append(sized(r, 133, c[1], False))
        elif op in ("setrule", "putrule"):
            out.append(bytes([132 if op == "setrule" else 137]) + struct.pack(">ll", c[1], c[2]))
        elif op in ("nop", "push", "pop", "w0", "x0", "y0", "z0"):
            out.append(bytes([dict(nop=138, push=141, pop=142, w0=147, x0=152, y0=161, z0=166)[op]]))
        elif op in ("right", "w", "x", "down", "y", "z"):
            out.append(sized(r, dict(right=143, w=148, x=153, down=157, y=162, z=167)[op], c[1], True))
        elif op == "fnt":
            n = c[1]
            if n < 0:
                out.append(bytes([238]) + sint(n, 4))
            else:
                out.append(bytes([171 + n]) if n < 64 and r.random() < 0.6 else sized(r, 235, n, False))
        elif op == "fntdef":
            out.append(fntdef(r, c[1], c[2], c[3], (design[c[2]] // unit) if design else 0))
        elif op == "endgroup":
            out.append(xxx(r, b"PyX:%s_end" % open_.pop().encode()))
        else:
            if op in ("color", "rotate", "scale"):
                open_.append(op)
            out.append(xxx(r, special(c)))
    return b"".join(out)


def xxx(r, s):
    return sized(r, 239, len(s), False) + s


def dvi(r, pages, unit=1, mag=1000, design=None, between=None):
    """pages: [(counters, program)]; between: programs (nop and fntdef only) before every page and at the end"""
    out = [b"\x8a" * r.choice([0, 0, 1])]
    comment = b"verif" * r.choice([0, 1, 40])
    out.append(bytes([247, 2]) + struct.pack(">LLL", 25400000, 473628672 // unit, mag) + bytes([len(comment)]) + comment)
    last = -1
    for i, (counters, prog) in enumerate(pages):
        out.append(assemble(r, between[i] if between else [], unit, design=design))
        pos = sum(map(len, out))
        out.append(bytes([139]) + b"".join(struct.pack(">l", c) for c in counters) + struct.pack(">l", last) + assemble(r, prog, unit, design=design) + bytes([140]))
        last = pos
    out.append(assemble(r, between[-1] if between else [], unit, design=design))
    pos = sum(map(len, out))
    out.append(bytes([248]) + struct.pack(">l", last) + struct.pack(">LLL", 25400000, 473628672 // unit, mag) + struct.pack(">llHH", 0, 0, 10, len(pages)))
    out.append(bytes([249]) + struct.pack(">l", pos) + bytes([2]) + b"\xdf" * 4)
    return b"".join(out)


def tfm(widths, design, check=0, heights=(0, 500000), depths=(0, 100000)):
    """widths: [(code, fix_word)]; design size as fix_word"""
    codes = dict(widths)
    bc, ec = min(codes), max(codes)
    table = [0] + sorted(set(codes.values()) | {0})
    words = []
    for c in range(bc, ec + 1):
        words.append(bytes([table.index(codes[c], 1), (1 << 4) | 1, 0, 0]) if c in codes else b"\0" * 4)
    body = struct.pack(">ll", check, design) + b"".join(words) + b"".join(struct.pack(">l", w) for t in (table, heights, depths, (0,)) for w in t)
    lf = 6 + len(body) // 4
    return struct.pack(">12h", lf, 2, bc, ec, len(table), len(heights), len(depths), 1, 0, 0, 0, 0) + body


def vf(r, f, design, designs, check=0):
    """the VF file of a font of the specification's env"""
    out = [bytes([247, 202, 3]) + b"abc" + struct.pack(">lL", check, design)]
    for num, name, size in f["locals"]:
        out.append(fntdef(r, num, name, size, designs[name]))
    widths = dict((c, w) for c, w in f["widths"])
    for code, prog in f["packets"]:
        p = assemble(r, prog)
        w = widths[code]
        if len(p) < 242 and 0 <= w < 1 << 24 and r.random() < 0.7:
            out.append(bytes([len(p), code]) + sint(w, 3) + p)
        else:
            # the 24 bit width of the long form is a 32 bit number by the definition of VF files
            out.append(bytes([242]) + struct.pack(">LLl", len(p), code, w) + p)
    out.append(b"\xf8" * r.choice([1, 2, 4]))
    return b"".join(out)


class Library:
    """font files in the current directory"""

    def __init__(self, r):
        self.r, self.n, self.design, self.env, self.psname = r, 0, {}, {}, {}

    def add(self, f, design=10 * (1 << 20)):
        name = f["id"]
        check = self.r.choice([0, 0x4afe])
        self.design[name] = design
        self.env[name] = f
        with open(name + ".tfm", "wb") as out:
            out.write(tfm(f["widths"], design, check))
        if f["kind"] == "vf":
            with open(name + ".vf", "wb") as out:
                out.write(vf(self.r, f, design, self.design, check))
        else:
            self.psname[name] = PSFONTS[len(self.psname) % len(PSFONTS)]
        return name

    def dvidesign(self):
        return {n: d // 16 for n, d in self.design.items()}

    def fontmap(self):
        from pyx.dvi import mapfile
        return {n: mapfile.MAPline("%s %s" % (n, p)) for n, p in self.psname.items()}


def observe(page, registry_unit, names):
    """what a page paints: runs of characters and rules in DVI units (device coordinates), and its markers"""
    from pyx import pswriter, bbox, unit, writer
    out = io.StringIO()

    class File:
        def write(self, s):
            out.write(s if isinstance(s, str) else s.decode("latin1"))
        write_bytes = write
    w = pswriter._PSwriter()
    page.processPS(File(), w, pswriter.context(), pswriter.PSregistry(), bbox.empty())
    u = registry_unit
    stack, res = [], []
    ctm, color, font, pos, path = (1, 0, 0, 1, 0, 0), "", None, None, []
    eps = False

    def mul(m, n):
        return (m[0] * n[0] + m[2] * n[1], m[1] * n[0] + m[3] * n[1], m[0] * n[2] + m[2] * n[3], m[1] * n[2] + m[3] * n[3], m[0] * n[4] + m[2] * n[5] + m[4], m[1] * n[4] + m[3] * n[5] + m[5])
    for op, a in psread.ops(out.getvalue().encode("latin1")):
        if op in ("gsave", "BeginEPSF"):
            stack.append((ctm, color, font, list(path)))
            if op == "BeginEPSF":
                eps, color = True, "gray 0"
        elif op == "EndEPSF":
            ctm, color, font, path = stack.pop()
            eps = False
        elif op in ("rectclip", "showpage"):
            pass
        elif op == "grestore":
            ctm, color, font, path = stack.pop()
        elif op == "concat":
            ctm = mul(ctm, [float(x) for x in a[-1]])
        elif op.startswith("set") and op[3:] in ("gray", "rgbcolor", "cmykcolor", "hsbcolor"):
            color = " ".join([op[3:].replace("color", "")] + ["%g" % x for x in a])
        elif op == "selectfont":
            font = (a[0] if isinstance(a[0], str) else a[0][1], float(a[1]))
        elif op == "newpath":
            path = []
        elif op == "moveto":
            pos = (float(a[0]), float(a[1]))
            path.append(pos)
        elif op == "lineto":
            path.append((float(a[0]), float(a[1])))
        elif op == "rlineto":
            path.append((path[-1][0] + float(a[0]), path[-1][1] + float(a[1])))
        elif op == "closepath":
            pass
        elif op == "fill" and eps:
            dev = [(ctm[0] * x + ctm[2] * y + ctm[4], ctm[1] * x + ctm[3] * y + ctm[5]) for x, y in path]
            xs, ys = [p[0] for p in dev], [p[1] for p in dev]
            res.append(dict(k="e", font="", z=0, codes=[], c=0, m=[1, 0, 0, 1, 0, 0], x=round(min(xs) / u), y=round(min(ys) / u), w=round((max(xs) - min(xs)) / u), h=round((max(ys) - min(ys)) / u), color=color))
            path = []
        elif op in ("show", "fill"):
            m = [round(ctm[0]), round(ctm[2]), round(ctm[1]), round(ctm[3]), round(ctm[4] / u), round(ctm[5] / u)]
            if max(abs(ctm[i] - j) for i, j in ((0, m[0]), (2, m[1]), (1, m[2]), (3, m[3]))) > 1e-5:
                raise ValueError("unexpected transformation %s" % (ctm,))
            g = dict(k="r", font="", z=0, codes=[], c=0, x=0, y=0, w=0, h=0, m=m, color=color)
            if op == "show":
                g.update(k="c", font=names.get(font[0], "?" + font[0]), z=round(font[1] / u), codes=list(a[0][1]), x=round(pos[0] / u), y=round(pos[1] / u))
            else:
                xs, ys = [p[0] for p in path], [p[1] for p in path]
                if len(path) not in (4, 5) or not {(x, y) for x in (min(xs), max(xs)) for y in (min(ys), max(ys))} <= set(path):
                    raise ValueError("not a rule: %s" % path)
                g.update(x=round(xs[0] / u), y=round(ys[0] / u), w=round((max(xs) - min(xs)) / u), h=round((max(ys) - min(ys)) / u))
                path = []
            res.append(g)
        elif op not in ("gsave",):
            raise ValueError("unexpected operator " + op)
    marks = [[n, round(unit.topt(p[0]) / u), round(unit.topt(p[1]) / u)] for n, p in sorted(page.markers.items())]
    return res, marks


def read(data, lib, pages, unit=1, mag=1000, single=False, ids="right", filename="doc.dvi"):
    """trace events of reading a DVI file: [per page event], post event"""
    from pyx.dvi import dvifile
    with open(filename, "wb") as f:
        f.write(data)
    u = UNIT * unit * mag / 1000
    names = {p: n for n, p in lib.psname.items()}
    fm = lib.fontmap()
    d = dvifile.DVIfile(filename)
    evs = []
    try:
        dvifile.DVIfile(filename).readpage([c + 1 for c in pages[0][0]], fontmap=fm)
        wrongid = False
    except dvifile.DVIError:
        wrongid = True
    for counters, prog in pages:
        page = d.readpage(list(counters) if ids == "right" else None, fontmap=fm, singlecharmode=single)
        if page is None:
            raise ValueError("page missing")
        got, marks = observe(page, u, names)
        evs.append(dict(k="eop", failed="", single=single, got=got, marks=marks))
    return evs, (d.readpage(fontmap=fm) is None, wrongid)


EPS = "%!PS-Adobe-3.0 EPSF-3.0\n%%BoundingBox: 5 -10 25 30\n%%EndComments\nnewpath 5 -10 moveto 25 -10 lineto 25 30 lineto 5 30 lineto closepath fill\nshowpage\n"


def epscommand(r, unit=1):
    """inclusion of the 20 x 40 pt graphics of EPS"""
    with open("pic.eps", "w") as f:
        f.write(EPS)
    w, h = r.choice([(None, None), (10, None), (None, 10), (30, 15)])
    args = "file=pic.eps llx=5 lly=-10 urx=25 ury=30"
    if w:
        args += " width=%d.0" % w
    if h:
        args += " height=%d.0" % h
    if r.random() < 0.5:
        args += " clip=%d" % r.choice([0, 1])
    if not w and not h:
        w, h = 20, 40
    elif not w:
        w = h / 2
    elif not h:
        h = 2 * w
    return ["eps", round(w / (UNIT * unit)), round(h / (UNIT * unit)), args]
