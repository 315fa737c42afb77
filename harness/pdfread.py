"""A strict little PDF reader for the files PyX writes."""
import re, zlib

WS = b" \t\r\n\f\0"


class Ref(tuple):
    pass


class Name(str):
    pass


class Stream:
    def __init__(self, dic, raw, declared, ok):
        self.dic, self.raw, self.declared, self.ok = dic, raw, declared, ok

    def data(self):
        f = self.dic.get("Filter")
        fs = f if isinstance(f, list) else [f] if f else []
        d = self.raw
        for x in fs:
            if x == "FlateDecode":
                d = zlib.decompress(d)
            elif x == "ASCII85Decode":
                import base64
                d = base64.a85decode(d.strip().rstrip(b"~>"))
            else:
                return None
        return d


class ParseError(Exception):
    pass


class Lexer:
    def __init__(self, data, pos=0, content=False):
        self.d, self.p, self.content = data, pos, content

    def ws(self):
        d = self.d
        while self.p < len(d):
            c = d[self.p:self.p + 1]
            if c in (b" ", b"\t", b"\r", b"\n", b"\f", b"\0"):
                self.p += 1
            elif c == b"%":
                while self.p < len(d) and d[self.p:self.p + 1] not in (b"\n", b"\r"):
                    self.p += 1
            else:
                break

    def obj(self):
        self.ws()
        d, p = self.d, self.p
        if p >= len(d):
            return None
        c = d[p:p + 1]
        if d[p:p + 2] == b"<<":
            self.p += 2
            dic, dup = {}, []
            while True:
                self.ws()
                if self.d[self.p:self.p + 2] == b">>":
                    self.p += 2
                    break
                k = self.obj()
                if not isinstance(k, Name):
                    raise ParseError("dictionary key %r at %d" % (k, self.p))
                v = self.obj()
                if k in dic:
                    dup.append(k)
                dic[str(k)] = v
            if dup:
                dic["#dup"] = dup
            return dic
        if c == b"[":
            self.p += 1
            r = []
            while True:
                self.ws()
                if self.d[self.p:self.p + 1] == b"]":
                    self.p += 1
                    return r
                if self.p >= len(d):
                    raise ParseError("unterminated array")
                r.append(self.obj())
        if c == b"(":
            depth, i, out = 0, p, bytearray()
            while i < len(d):
                ch = d[i:i + 1]
                if ch == b"\\":
                    n = d[i + 1:i + 2]
                    m = re.match(rb"[0-7]{1,3}", d[i + 1:i + 4])
                    if m:
                        out.append(int(m.group(), 8) & 255)
                        i += 1 + len(m.group())
                    else:
                        out += {b"n": b"\n", b"r": b"\r", b"t": b"\t", b"b": b"\b", b"f": b"\f"}.get(n, n)
                        i += 2
                    continue
                if ch == b"(":
                    depth += 1
                    if depth > 1:
                        out += ch
                elif ch == b")":
                    depth -= 1
                    if depth == 0:
                        self.p = i + 1
                        return bytes(out)
                    out += ch
                else:
                    out += ch
                i += 1
            raise ParseError("unterminated string")
        if c == b"<":
            e = d.index(b">", p)
            self.p = e + 1
            h = re.sub(rb"\s", b"", d[p + 1:e])
            if len(h) % 2:
                h += b"0"
            return bytes.fromhex(h.decode())
        if c == b"/":
            m = re.compile(rb"/[^\s()<>\[\]{}/%]*").match(d, p)
            self.p = m.end()
            return Name(m.group()[1:].decode("latin1"))
        m = re.compile(rb"(\d+)\s+(\d+)\s+R(?![A-Za-z0-9])").match(d, p)
        if m and not self.content:
            self.p = m.end()
            return Ref((int(m.group(1)), int(m.group(2))))
        m = re.compile(rb"[+-]?(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?(?=[\s()<>\[\]{}/%]|$)").match(d, p)
        if m:
            self.p = m.end()
            t = m.group()
            return float(t) if b"." in t or b"e" in t.lower() else int(t)
        m = re.compile(rb"[^\s()<>\[\]{}/%]+").match(d, p)
        if not m:
            raise ParseError("unexpected %r at %d" % (d[p:p + 10], p))
        self.p = m.end()
        t = m.group().decode("latin1")
        if t == "true":
            return True
        if t == "false":
            return False
        return Op(t)


class Op(str):
    pass


class PDFFile:
    """objects: number -> object; problems: list of structural problems found while reading"""

    def __init__(self, data):
        self.data = data
        self.problems = []
        self.objects, self.pos = {}, {}
        if not data.startswith(b"%PDF-1."):
            self.problems.append("header")
        m = list(re.finditer(rb"startxref\s+(\d+)\s+%%EOF\s*$", data))
        self.xref, self.trailer = {}, {}
        if not m:
            self.problems.append("startxref")
            return
        x = int(m[-1].group(1))
        if not data[x:].startswith(b"xref\n"):
            self.problems.append("startxref-offset")
            return
        lines = data[x:].split(b"\n")
        first, count = map(int, lines[1].split())
        for i in range(count):
            l = lines[2 + i]
            if not re.match(rb"\d{10} \d{5} [nf] $", l):
                self.problems.append("xref-entry")
                continue
            if l[17:18] == b"n":
                self.xref[first + i] = int(l[:10])
        if first != 0 or count < 1 or lines[2][17:18] != b"f":
            self.problems.append("xref-head")
        self.count = count
        t = data.index(b"trailer", x)
        self.trailer = Lexer(data, t + 7).obj()
        if not lines[2 + count].startswith(b"trailer"):
            self.problems.append("xref-count")
        for n, off in sorted(self.xref.items()):
            mm = re.compile(rb"(\d+) (\d+) obj\b").match(data, off)
            if not mm or int(mm.group(1)) != n:
                self.problems.append("xref-offset")
                continue
            lx = Lexer(data, mm.end())
            try:
                o = lx.obj()
            except (ParseError, ValueError) as e:
                self.problems.append("object-syntax")
                continue
            lx.ws()
            rest = data[lx.p:]
            if rest.startswith(b"stream"):
                p = lx.p + 6
                if data[p:p + 2] == b"\r\n":
                    p += 2
                elif data[p:p + 1] == b"\n":
                    p += 1
                else:
                    self.problems.append("stream-keyword")
                ln = o.get("Length") if isinstance(o, dict) else None
                if isinstance(ln, Ref):
                    ln = None
                ok = isinstance(ln, int) and re.match(rb"\s{0,2}endstream\s+endobj", data[p + ln:p + ln + 30]) is not None
                if not ok:
                    self.problems.append("stream-length")
                    e = data.find(b"endstream", p)
                    raw = data[p:e]
                else:
                    raw = data[p:p + ln]
                o = Stream(o, raw, ln, ok)
            elif not rest.startswith(b"endobj"):
                self.problems.append("endobj")
            if n in self.objects:
                self.problems.append("duplicate-object")
            self.objects[n] = o
            self.pos[n] = off
        heads = [int(mm.group(1)) for mm in re.finditer(rb"(?:^|\n)(\d+) 0 obj\n", self.nostreams())]
        if len(heads) != len(set(heads)):
            self.problems.append("duplicate-object")
        if sorted(set(heads)) != sorted(self.xref):
            self.problems.append("xref-incomplete")

    def nostreams(self):
        d = self.data
        spans = []
        for n, o in self.objects.items():
            if isinstance(o, Stream):
                i = d.find(b"stream", self.pos[n])
                spans.append((i, i + len(o.raw)))
        out, last = b"", 0
        for a, b in sorted(spans):
            out += d[last:a]
            last = b
        return out + d[last:]

    def get(self, o):
        n = 0
        while isinstance(o, Ref) and n < 20:
            o = self.objects.get(o[0])
            n += 1
        return o

    def pages(self):
        root = self.get(self.trailer.get("Root"))
        return self._pages(root.get("Pages"), None, 0) if isinstance(root, dict) else []

    def _pages(self, ref, parent, depth):
        node = self.get(ref)
        if not isinstance(node, dict) or depth > 10:
            return []
        if node.get("Type") == "Page":
            return [node]
        r = []
        for k in node.get("Kids", []):
            r += self._pages(k, ref, depth + 1)
        return r

    def content(self, page):
        c = self.get(page.get("Contents"))
        cs = c if isinstance(c, list) else [c]
        return b"\n".join(self.get(x).data() for x in cs if x is not None)


def ops(data):
    """(operator, operands) list of a content stream (inline images are not used by PyX)"""
    lx = Lexer(data, content=True)
    res, stack = [], []
    while True:
        try:
            o = lx.obj()
        except (ParseError, ValueError) as e:
            res.append(("syntax", [str(e)]))
            return res
        if o is None:
            break
        if isinstance(o, Op):
            res.append((str(o), stack))
            stack = []
        else:
            stack.append(o)
    if stack:
        res.append(("leftover", stack))
    return res


def refs(o):
    """all references inside an object"""
    if isinstance(o, Ref):
        return [o[0]]
    if isinstance(o, Stream):
        return refs(o.dic)
    if isinstance(o, dict):
        return [r for v in o.values() for r in refs(v)]
    if isinstance(o, list):
        return [r for v in o for r in refs(v)]
    return []
