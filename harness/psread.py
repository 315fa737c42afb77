"""Reader of the PostScript files PyX writes: DSC sections, and the page programs as operator events."""
import re

TOKEN = re.compile(rb"\s*(?:(%[^\n]*)|(<~)|(<<|>>)|(<[0-9A-Fa-f\s]*>)|(\((?:[^()\\]|\\.|\((?:[^()\\]|\\.)*\))*\))|([\[\]{}])|(/[^\s()<>\[\]{}/%]*)|([^\s()<>\[\]{}/%]+))", re.S)


def tokens(data):
    pos = 0
    while pos < len(data):
        m = TOKEN.match(data, pos)
        if not m:
            if data[pos:].strip():
                yield ("bad", data[pos:pos + 40])
            return
        pos = m.end()
        c, a85, dd, hx, st, br, nm, ex = m.groups()
        if c is not None:
            continue
        if a85:
            end = data.index(b"~>", pos)
            yield ("data", data[pos:end])
            pos = end + 2
        elif dd:
            yield ("op", dd.decode())
        elif hx is not None:
            yield ("hex", hx)
        elif st is not None:
            yield ("str", st)
        elif br:
            yield ("br", br.decode())
        elif nm is not None:
            yield ("name", nm[1:].decode("latin1"))
        else:
            t = ex.decode("latin1")
            try:
                yield ("num", float(t))
            except ValueError:
                yield ("op", t)


def string(tok):
    """bytes of a literal string token"""
    s, out, i = tok[1:-1], bytearray(), 0
    while i < len(s):
        c = s[i:i + 1]
        if c == b"\\":
            n = s[i + 1:i + 2]
            if n.isdigit():
                m = re.match(rb"[0-7]{1,3}", s[i + 1:])
                out.append(int(m.group(), 8) & 255)
                i += 1 + len(m.group())
                continue
            out += {b"n": b"\n", b"r": b"\r", b"t": b"\t", b"b": b"\b", b"f": b"\f"}.get(n, n)
            i += 2
        else:
            out += c
            i += 1
    return bytes(out)


def ops(data):
    """(operator, operands) list of a straight-line program; arrays and procedures become lists"""
    res, stack, marks = [], [], []
    for k, v in tokens(data):
        if k == "br":
            if v in "[{":
                marks.append(len(stack))
            else:
                if not marks:
                    res.append(("unbalanced", [v]))
                    continue
                m = marks.pop()
                stack[m:] = [stack[m:]]
        elif k == "op":
            if marks and v not in ("true", "false", "null"):
                stack.append(("op", v))
            elif v in ("true", "false", "null"):
                stack.append(v)
            else:
                res.append((v, stack))
                stack = []
        elif k == "num":
            stack.append(v)
        elif k == "str":
            stack.append(("str", string(v)))
        elif k == "name":
            stack.append(("name", v))
        else:
            stack.append((k, v))
    if stack or marks:
        res.append(("leftover", stack))
    return res


class PSFile:
    def __init__(self, data):
        self.data = data
        self.lines = data.split(b"\n")
        self.comments = [(i, l.decode("latin1")) for i, l in enumerate(self.lines) if l.startswith(b"%%") or l.startswith(b"%!")]
        m = re.search(rb"%%BeginProlog\n(.*?)%%EndProlog\n", data, re.S)
        self.prolog = m.group(1) if m else None
        body = data[m.end():] if m else b""
        t = body.rfind(b"%%Trailer")
        self.trailer = body[t:] if t >= 0 else b""
        body = body[:t] if t >= 0 else body
        self.body = body
        if re.search(rb"^%%Page: ", body, re.M):
            parts = re.split(rb"^(?=%%Page: )", body, flags=re.M)
            self.before_pages = parts[0]
            self.pages = parts[1:]
        else:
            self.before_pages = b""
            self.pages = [body]

    def comment(self, name):
        return [c[len(name) + 3:].strip() for _, c in self.comments if c.startswith("%%" + name + ":")]
