"""PostScript files as event sequences for spec/PSTrace.tla: structure comments, operators with the kinds of their operands, inline data."""
import base64, binascii, re, zlib
import docgen, psread

WHITE = b" \t\r\n\f\0"
DELIM = b"()<>[]{}/%"


class Junk(Exception):
    pass


def a85(data):
    return base64.a85decode(data.strip() + b"~>", adobe=False) if False else base64.a85decode(re.sub(rb"\s", b"", data))


class Reader:
    def __init__(self, data, eps, want):
        self.d, self.p, self.eps, self.want, self.ev = data, 0, eps, want, []
        self.push, self.vals = [], []
        self.defs, self.src, self.cs, self.enc, self.begins = {}, None, None, {}, []
        self.stores, self.font, self.fstack = {}, None, []
        self.inproc = 0
        self.last = ""

    # ---- tokens
    def token(self):
        d = self.d
        while self.p < len(d):
            c = d[self.p:self.p + 1]
            if c in (b" ", b"\t", b"\r", b"\n", b"\f", b"\0"):
                self.p += 1
                continue
            if c == b"%":
                end = d.find(b"\n", self.p)
                end = len(d) if end < 0 else end
                line = d[self.p:end]
                start = self.p == 0 or d[self.p - 1:self.p] == b"\n"
                self.p = end + 1
                if line.startswith(b"%%") or line.startswith(b"%!"):
                    if not start:
                        raise Junk("comment-not-at-line-start")
                    return "dsc", line.decode("latin1")
                continue
            if d[self.p:self.p + 2] == b"<~":
                end = d.index(b"~>", self.p)
                raw = d[self.p + 2:end]
                self.p = end + 2
                try:
                    return "s", a85(raw)
                except ValueError:
                    raise Junk("ascii85")
            if d[self.p:self.p + 2] in (b"<<", b">>"):
                self.p += 2
                return "op", d[self.p - 2:self.p].decode()
            if c == b"<":
                end = d.index(b">", self.p)
                raw = d[self.p + 1:end]
                self.p = end + 1
                return "s", binascii.a2b_hex(re.sub(rb"\s", b"", raw))
            if c == b"(":
                m = re.compile(rb"\((?:[^()\\]|\\.|\((?:[^()\\]|\\.)*\))*\)", re.S).match(d, self.p)
                if not m:
                    raise Junk("string")
                self.p = m.end()
                return "s", psread.string(m.group())
            if c in b"[]":
                self.p += 1
                return "op", c.decode()
            if c in b"{}":
                self.p += 1
                return "brace", c.decode()
            m = re.compile(rb"/?[^\s()<>\[\]{}/%\0]*").match(d, self.p)
            if not m.group():
                raise Junk("character")
            self.p = m.end()
            t = m.group().decode("latin1")
            if t.startswith("/"):
                return "x", t[1:]
            try:
                return "n", float(t)
            except ValueError:
                return "op", t
        return None, None

    # ---- procedures: kept as token lists; drawing procedures run as programs of their own
    def proc(self, draws):
        if draws:
            saved = self.push, self.vals, self.src
            self.push, self.vals, self.src = [], [], None
            self.ev.append(dict(k="proc"))
            self.inproc += 1
            self.firstcolor = None
            while True:
                k, v = self.token()
                if k is None:
                    raise Junk("procedure")
                if k == "brace" and v == "}":
                    break
                self.item(k, v)
            self.inproc -= 1
            self.ev.append(dict(k="endproc"))
            mark = self.firstcolor
            self.push, self.vals, self.src = saved
            return ("proc", mark)
        depth = 1
        toks = []
        while depth:
            k, v = self.token()
            if k is None:
                raise Junk("procedure")
            if k == "brace":
                depth += 1 if v == "{" else -1
            toks.append(v)
        return ("proc", None)

    def run(self):
        try:
            while True:
                k, v = self.token()
                if k is None:
                    break
                self.item(k, v)
            if self.push:
                raise Junk("operands-left-over")
        except Junk as e:
            self.ev.append(dict(k="junk", why=str(e)))
        except (ValueError, IndexError, binascii.Error) as e:
            self.ev.append(dict(k="junk", why="unreadable"))
        return self.ev

    def item(self, k, v):
        if k == "dsc":
            self.dsc(v)
        elif k == "brace":
            if v == "}":
                raise Junk("unmatched-brace")
            draws = bool(self.vals) and self.vals[-1] == ("x", "PaintProc")
            self.vals.append(self.proc(draws))
            self.push.append(["p", ""])
        elif k == "op":
            if v in ("true", "false"):
                self.push.append(["b", ""])
                self.vals.append(v)
            else:
                self.op(v)
        else:
            self.push.append([k, v if k == "x" else ""])
            self.vals.append(("x", v) if k == "x" else v)

    def op(self, v):
        last, self.last = self.last, v
        e = dict(k="op", cont=last == "rmoveto", op={".setshapealpha": "dot_setshapealpha"}.get(v, v), push=self.push, eps=self.eps, what="")
        a, self.push = self.vals, []
        ev = [e]
        if v in ("[", "<<"):
            a.append(("mark", v))
        elif v in ("]", ">>"):
            i = max([j for j, x in enumerate(a) if x == ("mark", "[" if v == "]" else "<<")], default=None)
            if i is not None:
                body = a[i + 1:]
                a[i:] = [body] if v == "]" else [("dict", {body[j][1]: body[j + 1] for j in range(0, len(body) - 1, 2) if isinstance(body[j], tuple)})]
        elif v == "load":
            a[-1:] = [self.defs.get(a[-1][1]) if a else None]
        elif v == "currentfile":
            a.append(("file", []))
            self.src = []
        elif v == "filter" and len(a) >= 2:
            f = a.pop()[1]
            if self.src is not None and isinstance(a[-1], tuple) and a[-1][0] == "file":
                self.src.append(f)
                a[-1] = ("file", a[-1][1] + [f])
            else:
                a[-1] = ("decode", a[-1], f)
        elif v == "exch":
            a[-2:] = a[-2:][::-1]
        elif v == "bind":
            pass
        elif v == "matrix":
            a.append([1, 0, 0, 1, 0, 0])
        elif v == "makepattern":
            a[-2:] = [("pattern", a[-2][1].get("PaintProc", ("", None))[1])] if len(a) > 1 and isinstance(a[-2], tuple) and a[-2][0] == "dict" else [None]
        elif v == "def":
            if len(a) >= 2 and isinstance(a[-2], tuple):
                self.defs[a[-2][1]] = a[-1]
            a.clear()
        elif v == "store":
            if len(a) >= 2 and isinstance(a[-2], tuple):
                self.stores[a[-2][1]] = a[-1]
            a.clear()
        elif v == "setcolorspace":
            self.cs = a[-1] if a else None
            a.clear()
        elif v in ("setrgbcolor",):
            if self.inproc and self.firstcolor is None and len(a) == 3:
                self.firstcolor = docgen.unmark(a[0], a[1])
            a.clear()
        elif v == "setpattern":
            p = a[-1] if a else None
            e["what"] = "pattern%s" % p[1] if isinstance(p, tuple) and p[0] == "pattern" else "unknown"
            a.clear()
        elif v == "gsave":
            self.fstack.append(self.font)
        elif v == "grestore":
            self.font = self.fstack.pop() if self.fstack else None
        elif v == "selectfont":
            self.font = (a[0][1], a[1]) if len(a) == 2 and isinstance(a[0], tuple) else None
            a.clear()
        elif v == "show":
            e["what"] = self.show(a[-1] if a else b"")
            a.clear()
        elif v in ("ReEncodeFont", "ChangeFontMatrix"):
            if len(a) == 3:
                base = self.enc.get(a[0][1], (a[0][1], None, 0))
                if v == "ReEncodeFont":
                    self.enc[a[1][1]] = (base[0], [x[1] for x in a[2]], base[2])
                else:
                    self.enc[a[1][1]] = base
            a.clear()
        elif v in self.defs:
            x = self.defs[v]
            if isinstance(x, tuple) and x[0] == "proc":
                a.clear()
            else:
                a.append(x)
        elif v in ("image", "shfill"):
            x = a[-1][1] if a and isinstance(a[-1], tuple) and a[-1][0] == "dict" else {}
            src, self.src = self.src, None
            inline = None
            if src is not None:
                inline, ok = self.inline(src)
                ev.append(dict(k="data", valid=ok))
            ev.append(self.image(x, inline) if v == "image" else self.mesh(x, inline))
            a.clear()
        else:
            a.clear()
        self.ev += ev

    def inline(self, filters):
        hexa = filters[:1] == ["ASCIIHexDecode"]
        self.p += 1
        end = self.d.find(b">" if hexa else b"~>", self.p)
        if end < 0:
            raise Junk("data-without-end")
        raw = self.d[self.p:end]
        self.p = end + (1 if hexa else 2)
        try:
            if any(len(l) > 255 for l in raw.split(b"\n")) and not hexa:
                return None, False
            data = binascii.a2b_hex(re.sub(rb"\s", b"", raw)) if hexa else a85(raw)
            for f in filters[1:]:
                data = self.decode(data, f)
            return data, True
        except (ValueError, zlib.error, binascii.Error):
            return None, False

    def decode(self, data, f):
        if f == "FlateDecode":
            o = zlib.decompressobj()
            return o.decompress(data)
        return data

    def value(self, x):
        """the bytes a stored data source delivers"""
        if isinstance(x, tuple) and x[0] == "decode":
            return self.decode(self.value(x[1]), x[2])
        if isinstance(x, tuple) and x[0] == "proc":
            x = self.stores.get("imagedataid")
            return b"".join(x)
        return x

    def image(self, x, inline):
        y = x["DataDict"][1] if x.get("ImageType") == 3.0 else x
        try:
            data = inline if inline is not None else self.value(y.get("DataSource"))
            w, h = int(y["Width"]), int(y["Height"])
            if isinstance(self.cs, list):
                mode, pal, n = "P", self.cs[3], 1
                if self.cs[2] * 3 + 3 != len(pal):
                    return dict(k="image", what="palette-size", len=0, need=0)
            else:
                mode = {"DeviceRGB": "RGB", "DeviceGray": "L", "DeviceCMYK": "CMYK"}[self.cs[1]]
                pal, n = None, len(mode)
            if len(y["Decode"]) != 2 * n or (mode == "P" and y["Decode"] != [0.0, 255.0]) or (mode != "P" and y["Decode"] != [0.0, 1.0] * n):
                return dict(k="image", what="decode", len=0, need=0)
            alpha = None
            if y is not x:
                m = x["MaskDict"][1]
                if (m["Width"], m["Height"], m["BitsPerComponent"], x["InterleaveType"], m["Decode"], m["ImageMatrix"]) != (w, h, 8.0, 1.0, [1.0, 0.0], y["ImageMatrix"]):
                    return dict(k="image", what="mask-shape", len=0, need=0)
                total = (n + 1) * w * h
                alpha = data[::n + 1]
                body = bytes(b for i, b in enumerate(data) if i % (n + 1))
            else:
                total, body = n * w * h, data
            from checks import o06
            if not o06._images:
                o06._images.update(o06.images())
            return dict(k="image", what=o06._images.get((w, h, mode, body, alpha, pal), "unknown-image"), len=len(data), need=total)
        except Exception as e:
            return dict(k="image", what="unreadable %s" % type(e).__name__, len=0, need=0)

    def mesh(self, x, data):
        try:
            return dict(k="mesh", what="mesh%d" % (docgen.unmark(data[7] / 255.0, data[8] / 255.0) - 50))
        except Exception as e:
            return dict(k="mesh", what="unreadable %s" % type(e).__name__)

    def show(self, s):
        """[font, size, glyph names] of fonts known to the generator, [] otherwise"""
        if not self.font:
            return []
        base, vec, _ = self.enc.get(self.font[0], (self.font[0], None, 0))
        if base not in docgen.FONTNAMES:
            return []
        g = [(vec[c] if c < len(vec) else "?") if vec else docgen.STANDARD.get(c, "?") for c in s]
        return [base, "%g" % self.font[1]] + g

    # ---- structure comments
    def dsc(self, line):
        e = dict(k="dsc", key="", text="", ints=[], eps=self.eps, valid=True, want=self.want["pages"], label="")
        if line.startswith("%!"):
            e.update(key="!", text=line[2:])
        elif line.startswith("%%+"):
            self.media(e, line[3:].strip())
            e["key"] = "+"
        else:
            key, _, text = line[2:].partition(":")
            text = text.strip()
            e.update(key=key, text=text)
            if key == "DocumentMedia":
                self.media(e, text)
            elif key in ("BoundingBox", "PageBoundingBox"):
                e["valid"] = re.fullmatch(r"-?\d+ -?\d+ -?\d+ -?\d+", text) is not None
                e["ints"] = [int(x) for x in text.split()] if e["valid"] else []
            elif key == "HiResBoundingBox":
                try:
                    e["ints"] = [round(1000 * float(x)) for x in text.split()]
                except ValueError:
                    pass
                e["valid"] = len(e["ints"]) == 4
            elif key == "Pages":
                e["ints"] = [int(text)] if text.isdigit() else []
            elif key == "Page":
                m = re.fullmatch(r"(\S+|\(.*\)) (\d+)", text)
                e["ints"] = [int(m[2])] if m else []
                e["text"] = self.label(m[1]) if m else "?" + text
                n = sum(1 for x in self.ev if x["k"] == "dsc" and x["key"] == "Page")
                e["label"] = self.want["labels"][n] if n < len(self.want["labels"]) else "none"
            elif key == "PageOrientation":
                n = sum(1 for x in self.ev if x["k"] == "dsc" and x["key"] == "Page") - 1
                e["label"] = "Landscape" if self.want["rotated"][n] else "Portrait"
            elif key == "BeginFont":
                self.ev.append(dict(e, key="Begin", text="Font"))
                end = self.d.find(b"\n%%EndFont\n", self.p)
                if end < 0:
                    raise Junk("font-without-end")
                body = self.d[self.p:end]
                names = re.findall(rb"/FontName\s*/(\S+)\s+def", body)
                self.ev.append(dict(k="font", name=text, defines=[n.decode("latin1") for n in names]))
                self.p = end + len(b"\n%%EndFont\n")
                e.update(key="End", text="Font")
            elif key == "BeginDocument":
                self.ev.append(dict(e, key="Begin", text="Document"))
                start = self.p
                depth = 1
                for m in re.compile(rb"^%%(Begin|End)Document\b[^\n]*\n", re.M).finditer(self.d, self.p):
                    depth += 1 if m.group(1) == b"Begin" else -1
                    if not depth:
                        break
                if depth:
                    raise Junk("document-without-end")
                body = self.d[start:m.start()]
                orig = self.want["files"].get(self.label(text))
                self.ev.append(dict(k="embedded", same=orig is not None and body.rstrip(b"\n") == orig.rstrip(b"\n")))
                self.p = m.end()
                e.update(key="End", text="Document")
            elif key == "BeginData":
                m = re.fullmatch(r"(\d+) ASCII Lines", text)
                self.begins.append((int(m[1]) if m else -1, self.d.count(b"\n", 0, self.p)))
                e.update(key="Begin", text="Data")
            elif key == "EndData":
                n, line0 = self.begins.pop() if self.begins else (-1, 0)
                e.update(key="End", text="Data", ints=[n, self.d.count(b"\n", 0, self.p) - 1 - line0])
            elif key not in ("EndComments", "BeginProlog", "EndProlog", "BeginPageSetup", "EndPageSetup", "EndPage") and key.startswith("Begin"):
                e.update(key="Begin", text=key[5:])
            elif key not in ("EndComments", "EndProlog", "EndPageSetup") and key.startswith("End"):
                e.update(key="End", text=key[3:])
            elif key in ("Title", "Creator", "CreationDate", "PageMedia"):
                e["text"] = self.label(text)
        self.ev.append(e)

    def label(self, t):
        return psread.string(t.encode("latin1")).decode("latin1") if t[:1] == "(" and t[-1:] == ")" else t

    def media(self, e, text):
        m = re.fullmatch(r"(\(.*\)|\S+) (\S+) (\S+) \S+ \S+ \(.*\)", text)
        e["text"] = self.label(m[1]) if m else "?" + text
        e["ints"] = [round(float(m[2])), round(float(m[3]))] if m else []
