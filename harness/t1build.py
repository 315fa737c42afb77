"""Type 1 font programs: an encoder and reader of their own, from the format's description."""
import re

OPS = {"hstem": (1,), "vstem": (3,), "vmoveto": (4,), "rlineto": (5,), "hlineto": (6,), "vlineto": (7,), "rrcurveto": (8,), "closepath": (9,), "callsubr": (10,), "return": (11,),
       "hsbw": (13,), "endchar": (14,), "rmoveto": (21,), "hmoveto": (22,), "vhcurveto": (30,), "hvcurveto": (31,), "dotsection": (12, 0), "vstem3": (12, 1), "hstem3": (12, 2),
       "seac": (12, 6), "sbw": (12, 7), "div": (12, 12), "callothersubr": (12, 16), "pop": (12, 17), "setcurrentpoint": (12, 33)}
NAMES = {v: k for k, v in OPS.items()}
STD = {32: "space", 65: "A", 66: "B", 67: "C", 97: "a", 98: "b", 99: "c", 194: "acute", 195: "circumflex", 200: "dieresis", 202: "ring"}


def crypt(data, r, lead):
    out = bytearray()
    for p in lead + data:
        c = p ^ (r >> 8)
        out.append(c)
        r = ((c + r) * 52845 + 22719) & 0xffff
    return bytes(out)


def decrypt(data, r, n):
    out = bytearray()
    for c in data:
        out.append(c ^ (r >> 8))
        r = ((c + r) * 52845 + 22719) & 0xffff
    return bytes(out[n:])


def number(v, long=False):
    if not long:
        if -107 <= v <= 107:
            return bytes([v + 139])
        if 108 <= v <= 1131:
            return bytes([247 + (v - 108) // 256, (v - 108) % 256])
        if -1131 <= v <= -108:
            return bytes([251 + (-v - 108) // 256, (-v - 108) % 256])
    return b"\xff" + (v % 2 ** 32).to_bytes(4, "big")


def encode(cmds, r=None):
    return b"".join(number(i, r is not None and r.random() < 0.05) if c == "n" else bytes(OPS[c]) for c, i in cmds)


def decode(data):
    out, i = [], 0
    while i < len(data):
        b = data[i]
        i += 1
        if b == 12:
            out.append((NAMES[(12, data[i])], 0))
            i += 1
        elif b < 32:
            out.append((NAMES[(b,)], 0))
        elif b <= 246:
            out.append(("n", b - 139))
        elif b <= 250:
            out.append(("n", (b - 247) * 256 + data[i] + 108))
            i += 1
        elif b <= 254:
            out.append(("n", -(b - 251) * 256 - data[i] - 108))
            i += 1
        else:
            out.append(("n", int.from_bytes(data[i:i + 4], "big", signed=True)))
            i += 4
    return out


NOTDEF = [("n", 0), ("n", 250), ("hsbw", 0), ("endchar", 0)]


class Layout:
    """one of the ways to write the same font"""
    def __init__(self, r=None):
        c = (lambda *a: r.choice(a)) if r else (lambda *a: a[0])
        self.r = r
        self.pfa = c(False, True)
        self.leniv = c(None, 4, 0, 1)
        self.rd = c("RD", "-|")
        self.np = c("NP", "|", "noaccess put")
        self.nd = c("ND", "|-")
        self.subrslast = c(False, False, True)
        self.encoding = c("custom", "standard", "sparse")
        self.nl = c("\n", "\r", "\r\n") if r else "\n"
        self.split = c(1, 2, 3)
        self.hexwidth = c(64, 72, 8)
        self.matrix = c("0.001 0 0 0.001 0 0", "0.001 0 0 .001 0 0")

    def describe(self):
        return {k: v for k, v in self.__dict__.items() if k != "r"}


def build(subrs, glyphs, lay, name="VerifT1", encoding=None):
    """the bytes of a font; subrs: list of command lists, glyphs: dict of name -> commands, encoding: dict of code -> name"""
    n = 4 if lay.leniv is None else lay.leniv
    cs = lambda cmds: crypt(encode(cmds, lay.r), 4330, b"\xaa\xbb\xcc\xdd"[:n])
    if encoding is None:
        encoding = {k: v for k, v in STD.items() if v in glyphs}
    d1 = ["%%!PS-AdobeFont-1.0: %s 001.000" % name, "%%CreationDate: now", "11 dict begin", "/FontInfo 3 dict dup begin", "/version (1) readonly def", "end readonly def",
          "/FontName /%s def" % name, "/PaintType 0 def", "/FontType 1 def", "/FontMatrix [%s] readonly def" % lay.matrix]
    if lay.encoding == "standard":
        d1.append("/Encoding StandardEncoding def")
    else:
        d1 += ["/Encoding 256 array", "0 1 255 {1 index exch /.notdef put} for"] + ["dup %d /%s put" % (k, v) for k, v in sorted(encoding.items())] + ["readonly def"]
    d1 += ["/UniqueID 4999999 def", "/FontBBox {-100 -200 1200 1100} readonly def", "currentdict end", "currentfile eexec", ""]
    d1 = lay.nl.join(d1).encode("ascii")
    nl = b"\n"
    priv = b"dup /Private 9 dict dup begin" + nl + b"/" + lay.rd.encode() + b" {string currentfile exch readstring pop} executeonly def" + nl
    if lay.leniv is not None:
        priv += b"/lenIV %d def" % lay.leniv + nl
    priv += b"/BlueValues [-20 0] def" + nl + b"/UniqueID 4999999 def" + nl

    sub = b"/Subrs %d array" % len(subrs) + nl
    for i, s in enumerate(subrs):
        c = cs(s)
        sub += b"dup %d %d %s " % (i, len(c), lay.rd.encode()) + c + b" " + lay.np.encode() + nl
    sub += b"ND" + nl
    items = [(".notdef", NOTDEF)] + [(k, v) for k, v in glyphs.items() if k != ".notdef"]
    if lay.r:
        lay.r.shuffle(items)
    ch = b"/CharStrings %d dict dup begin" % len(items) + nl
    for k, v in items:
        c = cs(v)
        ch += b"/%s %d %s " % (k.encode(), len(c), lay.rd.encode()) + c + b" " + lay.nd.encode() + nl
    ch += b"end" + nl
    if lay.subrslast:
        body = priv + b"2 index " + ch + sub
    else:
        body = priv + sub + b"2 index " + ch
    body += b"end" + nl + b"readonly put" + nl + b"noaccess put" + nl + b"dup/FontName get exch definefont pop" + nl + b"mark currentfile closefile" + nl
    enc = crypt(body, 55665, b"\xf1\xf2\xf3\xf4")
    d3 = lay.nl.join(["0" * 64] * 8 + ["cleartomark", ""]).encode("ascii")
    if lay.pfa:
        h = enc.hex().encode()
        w = lay.hexwidth
        return d1 + b"\n".join(h[i:i + w] for i in range(0, len(h), w)) + b"\n" + d3
    seg = lambda k, d: b"\x80" + bytes([k]) + len(d).to_bytes(4, "little") + d
    cut = [len(enc) * i // lay.split for i in range(lay.split + 1)]
    return seg(1, d1) + b"".join(seg(2, enc[a:b]) for a, b in zip(cut, cut[1:])) + seg(1, d3) + b"\x80\x03"


def parse(data):
    """dict(name, encoding, matrix, subrs: {number: commands}, glyphs: {name: commands}) of a font program (PFA, PFB or the raw PDF form)"""
    if data[:1] == b"\x80":
        parts, i = [], 0
        while data[i + 1] != 3:
            n = int.from_bytes(data[i + 2:i + 6], "little")
            parts.append((data[i + 1], data[i + 6:i + 6 + n]))
            i += 6 + n
        if i + 2 != len(data):
            raise ValueError("bytes behind the end of the font")
        d1 = parts[0][1]
        enc = b"".join(d for k, d in parts if k == 2)
        if parts[0][0] != 1 or parts[-1][0] != 1:
            raise ValueError("segments of the font")
    else:
        m = re.search(rb"currentfile\s+eexec(\r\n|[ \t\r\n])", data)
        d1, enc = data[:m.end()], data[m.end():]
        if re.fullmatch(rb"[0-9a-fA-F\s]{4}", enc[:4]):
            enc = bytes.fromhex(re.split(rb"0{40}", enc)[0].decode("ascii").replace("\n", "").replace("\r", "").replace(" ", "")[:None])
    body = decrypt(enc, 55665, 4)
    m = re.search(rb"/lenIV\s+(\d+)\s+def", body)
    n = int(m.group(1)) if m else 4
    out = dict(subrs={}, glyphs={}, encoding={}, counts=[])
    m = re.search(rb"/Subrs\s+(\d+)\s+array", body)
    code = lambda d: decode(decrypt(d, 4330, n))
    if m:
        out["counts"].append(int(m.group(1)))
        i = m.end()
        while True:
            m = re.compile(rb"\s*dup\s+(\d+)\s+(\d+)\s+(RD|-\||\S+) ").match(body, i)
            if not m:
                break
            e = m.end() + int(m.group(2))
            if int(m.group(1)) in out["subrs"]:
                raise ValueError("subroutine defined twice")
            out["subrs"][int(m.group(1))] = code(body[m.end():e])
            m = re.compile(rb"\s*(noaccess\s+put|NP|\|(?!-)|\S+)").match(body, e)
            i = m.end()
    m = re.search(rb"/CharStrings\s+(\d+)\s+dict\s+dup\s+begin", body)
    out["counts"].append(int(m.group(1)))
    i = m.end()
    while True:
        m = re.compile(rb"\s*/(\S+)\s+(\d+)\s+(\S+) ").match(body, i)
        if not m:
            break
        e = m.end() + int(m.group(2))
        if m.group(1).decode() in out["glyphs"]:
            raise ValueError("glyph defined twice")
        out["glyphs"][m.group(1).decode()] = code(body[m.end():e])
        m = re.compile(rb"\s*(noaccess\s+def|ND|\|-|\S+)").match(body, e)
        i = m.end()
    if not re.compile(rb"\s*end").match(body, i):
        raise ValueError("glyphs are not followed by end")
    t = d1.decode("latin-1")
    out["name"] = re.search(r"/FontName\s+/(\S+)\s+def", t).group(1)
    out["matrix"] = [float(x) for x in re.search(r"/FontMatrix\s*\[([^\]]*)\]", t).group(1).split()]
    if re.search(r"/Encoding\s+StandardEncoding\s+def", t):
        out["encoding"] = None
    else:
        out["encoding"] = {int(a): b for a, b in re.findall(r"dup\s+(\d+)\s*/(\S+)\s+put", t)}
    return out
