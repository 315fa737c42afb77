"""R09: data sets deliver the columns of their source by every access path (spec/Table.tla, TableMC.tla, TableTrace.tla)."""
import io, json, math, os, shutil, struct, tempfile
from vp import guard

codes = lambda s: [ord(c) for c in s]


def val(v):
    if v is None:
        return dict(t="z", n=0, s=[])
    if isinstance(v, str):
        return dict(t="s", n=0, s=codes(v))
    if isinstance(v, (int, float)) and not isinstance(v, bool) and v == v and abs(v) < 2e6:
        return dict(t="n", n=int(round(1000 * v)), s=[])
    return dict(t="x", n=0, s=codes(repr(v)[:20]))


def columns(d):
    return [[codes(str(k)), [val(v) for v in c]] for k, c in sorted(d.columns.items())]


def names(d):
    return [codes(str(n)) for n in d.columnnames]


def readfile(text, lineend, how, tmp, **kw):
    from pyx import graph
    if how == "path":
        name = os.path.join(tmp, "d%d.dat" % (hash(text) % 10 ** 9))
        with open(name, "w", newline="") as f:
            f.write(text.replace("\n", lineend))
        return graph.data.file(name, **kw)
    return graph.data.file(io.StringIO(text.replace("\n", lineend)), **kw)


def replay(ctx, tmp):
    r = ctx.model_check("TableMC", constants=dict(MaxLines=ctx.n(4, 5), MaxSkip=2, MaxEvery=3), invariants=["SameLength", "Numbers", "NamedAreNumbered", "Everything", "Some", "NoLateComments", "Emit"],
                        label="all files", heap="8g")
    cases = [json.loads(p[1:]) for p in r.prints]
    n = ctx.n(5000, 30000)
    if len(cases) > n:
        cases = ctx.rng.sample(cases, n)
    for i, c in enumerate(cases):
        text = "\n".join("".join(map(chr, l)) for l in c["ls"]) + ("\n" if i % 3 else "")
        # comments between lines skipped at the head are neither in front of the data nor clearly not
        data = [k for k, l in enumerate(c["ls"]) if bytes(l).strip() and l[0] not in (33, 35)]
        if c["sel"][0] and data and any(l and l[0] in (33, 35) for l in c["ls"][data[0]:]):
            continue
        kw = dict(skiphead=c["sel"][0], skiptail=c["sel"][1], every=c["sel"][2])
        width = len(c["num"])
        for k in range(width):
            kw["n%d" % k] = k
        ctx.traces += 1
        o = guard(readfile, text, "\r\n" if i % 5 == 0 else "\n", "path" if i % 2 else "file", tmp, title="t", **kw)
        desc = "%r with %r" % (text, kw)
        if not o.ok:
            ctx.violation("replay:refused:%s" % o.exc[:60], "reading %s fails: %s" % (desc, o.exc), c)
            continue
        got = {json.dumps(k): v for k, v in columns(o.value)}
        want = {json.dumps(k): v for k, v in c["cols"]}
        for k in range(width):
            want[json.dumps(codes("n%d" % k))] = c["num"][k]
        if got != want:
            what = "names" if set(got) != set(want) else "values"
            ctx.violation("replay:%s:%s" % (what, "all" if c["sel"] == [0, 0, 1] else "selected"), "reading %s: %s instead of %s" % (desc, show(got), show(want)), c)
    ctx.sample({"case": cases[len(cases) // 2]}, 2)


def show(d):
    return {"".join(map(chr, json.loads(k))): [{"n": v["n"] / 1000, "s": "".join(map(chr, v["s"])), "z": None}.get(v["t"], v) for v in c] for k, c in d.items()}


NUMBERS = ["1", "2", "-3", "+4", "0", "12", "0.5", "-1.25", ".5", "3.", "1e2", "25e-1", "-2E1", "1.5e+1", "007"]
WORDS = ["a", "bc", "-", "+", ".", "1a", "e5", "1e", "1.2.3", "--1", "x=1", "a\"b", "\"c", "3-4", "NaNa", "#x", "a#"]
QUOTED = ["\"a b\"", "\"\"", "\"1\"", "\"a  b c\"", "\"x\""]
NAMES = ["A", "B", "C", "alpha", "y2", "1", "A", "a-b"]


def randomfile(r):
    lines = []
    numeric = r.random() < 0.5
    width = r.randint(1, 4)

    def names():
        return r.choice(["#", "##", "# ", "%", "!\t", "#%"]) + r.choice([" ", "  ", ""]).join([""]) + r.choice([" ", "\t "]).join(r.choice(NAMES) if r.random() < 0.9 else r.choice(QUOTED) for _ in range(r.randint(1, 5)))
    for _ in range(r.randint(0, 3)):
        lines.append(r.choice([names(), names(), "#", "", "%% ", "  "]))
    for _ in range(r.randint(0, 9)):
        x = r.random()
        if x < 0.08:
            lines.append(r.choice(["", "  ", "\t"]))
        elif x < 0.16:
            lines.append(r.choice(["#", names()]))
        else:
            n = width if r.random() < 0.8 or numeric else r.randint(1, 5)
            items = [r.choice(NUMBERS) if numeric or r.random() < 0.7 else r.choice(WORDS[:-2] if not k else WORDS) if r.random() < 0.7 else r.choice(QUOTED) for k in range(n)]
            if any(i.count('"') not in (0,) and i in WORDS for i in items):
                # texts with single quotes only alone: what they mean together with other quotes is not documented
                items = [i if i not in QUOTED else "q" for i in items]
                if sum('"' in i for i in items) > 1:
                    items = [i if '"' not in i else "q" for i in items]
            lines.append(r.choice(["", " "]) + r.choice([" ", "\t", "   "]).join(items) + r.choice(["", " "]))
    return lines


def history(r, tmp):
    """one history of building data sets; returns the events"""
    from pyx import graph
    D = graph.data
    evs, sets, hasnum = [], [], []

    def add(ev, f, numbered):
        o = guard(f)
        ev = dict(ev, failed=o.exc if not o.ok else "", cols=[], names=[])
        if o.ok:
            ev["cols"], ev["names"] = columns(o.value), names(o.value)
            sets.append(o.value)
            hasnum.append(numbered)
        evs.append(ev)
        return o.ok

    def isnum(c):
        # the specification calculates in thousandths: columns which it cannot represent exactly are not calculated with
        return all(isinstance(v, (int, float)) and abs(v) < 1e4 and abs(1000 * v - round(1000 * v)) < 1e-8 for v in c)

    def refs(d, numbered, numeric):
        """possible references into a data set"""
        res = [dict(k="name", s=codes(k), i=0) for k, c in d.columns.items() if not numeric or isnum(c)]
        if numbered and getattr(d, "columndata", None):
            n = len(d.columndata)
            res += [dict(k="num", i=i, s=[]) for i in range(-n, n) if not numeric or isnum(d.columndata[i])]
        return res

    def text(ref):
        if ref["k"] == "num":
            return r.choice(["$%d", "__column__(%d)", "$(%d)"]) % ref["i"]
        s = "".join(map(chr, ref["s"]))
        return s if s.isidentifier() and r.random() < 0.7 else r.choice(["$(%r)", "__column__(%r)"]) % s

    def spec(d, numbered, n):
        out, kw = [], {}
        for name in r.sample(["x", "y", "z", "A", "y2"], n):
            some, nums = refs(d, numbered, False), refs(d, numbered, True)
            x = r.random()
            if x < 0.4 and some:
                ref = r.choice(some)
                s = "".join(map(chr, ref["s"]))
                if ref["k"] == "num":
                    kw[name] = ref["i"]
                else:
                    kw[name] = s
                out.append([codes(name), dict(k="ref", r=ref)])
            elif x < 0.8 and nums:
                ts = [dict(c=r.choice([-2, 1, 2, 3]), r=r.choice(nums)) for _ in range(r.randint(1, 3))]
                c = r.randint(-3, 3)
                kw[name] = r.choice(["", " "]) + " + ".join(["%d*%s" % (t["c"], text(t["r"])) for t in ts] + [str(c)])
                out.append([codes(name), dict(k="sum", ts=ts, c=c)])
            elif nums:
                ref = r.choice(nums)
                c = r.randint(1, 3)
                kw[name] = "%d/%s" % (c, text(ref))
                out.append([codes(name), dict(k="div", r=ref, c=c)])
        return out, kw

    for step in range(r.randint(2, 6)):
        what = r.choice(["file", "file", "points", "values", "conf"]) if not sets or r.random() < 0.4 else r.choice(["derive", "derive", "derive", "join", "again", "func", "split", "cbd"])
        copy = r.random() < 0.6
        if what == "file":
            lines = randomfile(r)
            sel = dict(skiphead=r.choice([0, 0, 1, 2]), skiptail=r.choice([0, 0, 1, 2, 3, 5]), every=r.choice([1, 1, 2, 3]))
            first = next((k for k, l in enumerate(lines) if l.strip() and l.strip()[0] not in "#%!"), len(lines))
            if sel["skiphead"]:
                lines = lines[:first] + [l for l in lines[first:] if not l.strip().startswith(("#", "%", "!"))]
            src = "\n".join(lines) + r.choice(["", "\n"])
            how, le = r.choice(["path", "file"]), r.choice(["\n", "\n", "\r\n"])
            # file gives only derived data: look at the columns by copying them, the numbers by naming them
            ev = dict(k="file", lines=[codes(l) for l in lines], **sel)
            o = guard(readfile, src, le, how, tmp, title=None, **sel)
            if not o.ok:
                evs.append(dict(ev, failed=o.exc, cols=[], names=[]))
                return evs
            d = o.value
            evs.append(dict(ev, failed="", cols=columns(d), names=names(d)))
            sets.append(d.orgdata)
            hasnum.append(True)
            s, kw = spec(d.orgdata, True, r.randint(0, 3))
            if r.random() < 0.3 and not getattr(d.orgdata, "columndata", None) and not d.orgdata.columns:
                # number columns of a file without data
                s, kw = [[codes("x"), dict(k="ref", r=dict(k="num", i=1, s=[]))]], dict(x=1)
            if not add(dict(k="derive", of=len(sets), spec=s, copy=copy), lambda: readfile(src, le, how, tmp, title=None, copy=copy, **sel, **kw), False):
                return evs
        elif what == "points":
            n, m = r.randint(0, 4), r.randint(1, 3)
            rows = [[r.choice([1, 2.5, -3, "t", None, 0]) if r.random() < 0.3 else r.randint(-4, 9) for _ in range(m)] for _ in range(n)]
            numbers = r.random() < 0.7
            lo, hi = (-m, m) if numbers else (-m + 1, m - 1)
            cs = [[c, r.randint(lo, hi)] for c in r.sample(["x", "y", "z", "u"], r.randint(0, 3))]
            ok = add(dict(k="points", rows=[[val(v) for v in row] for row in rows], spec=[[codes(c), i] for c, i in cs], numbers=numbers),
                     lambda: D.points(rows, title=None, addlinenumbers=int(numbers), **dict(cs)), True)
            if not ok:
                return evs
        elif what == "values":
            n = r.randint(0, 4)
            cs = {c: [r.choice([1, 2.5, -3, "t", None]) if r.random() < 0.2 else r.randint(-4, 9) for _ in range(n)] for c in r.sample(["x", "y", "z", "u"], r.randint(1, 3))}
            if not add(dict(k="values", spec=[[codes(c), [val(v) for v in cs[c]]] for c in cs]), lambda: D.values(title=None, **cs), False):
                return evs
        elif what == "conf":
            secs = [dict(name=codes(r.choice(["a", "b", "Z", "a1", "10", "9", "sec x"])),
                         opts=[[codes(r.choice(["x", "y", "Key", "key", "w z"])), codes(r.choice(["1", "2.5", "-3", "text", "1e1", "a b"]))] for _ in range(r.randint(0, 4))]) for _ in range(r.randint(1, 4))]
            st = lambda c: "".join(map(chr, c))
            src = "".join("[%s]\n%s\n" % (st(x["name"]), "".join("%s%s%s\n" % (st(a), r.choice(["=", " = ", ": "]), st(b)) for a, b in x["opts"])) for x in secs)
            how = r.choice([0, 1])
            fn = os.path.join(tmp, "c%d.ini" % (hash(src) % 10 ** 9))
            with open(fn, "w") as f:
                f.write(src)
            o = guard(lambda: D.conffile(fn if how else io.StringIO(src), title=None))
            evs.append(dict(k="conf", secs=secs, failed=o.exc if not o.ok else "", cols=columns(o.value) if o.ok else [], names=names(o.value) if o.ok else []))
            if not o.ok:
                return evs
            sets.append(o.value.orgdata)
            hasnum.append(True)
            s, kw = spec(o.value.orgdata, True, r.randint(0, 3))
            s = [x for x in s if x[1]["k"] == "ref"]
            kw = {k: v for k, v in kw.items() if codes(k) in [x[0] for x in s]}
            if not add(dict(k="derive", of=len(sets), spec=s, copy=copy), lambda: D.conffile(fn if how else io.StringIO(src), title=None, copy=copy, **kw), False):
                return evs
        elif what == "derive":
            i = r.randrange(len(sets))
            s, kw = spec(sets[i], hasnum[i], r.randint(0, 3))
            if not add(dict(k="derive", of=i + 1, spec=s, copy=copy), lambda: D.data(sets[i], title=None, copy=copy, **kw), False):
                return evs
        elif what == "join":
            of = [r.randrange(len(sets)) for _ in range(r.randint(1, 3))]
            if not add(dict(k="join", of=[i + 1 for i in of]), lambda: D.join([sets[i] for i in of], title=None, defaultstyles=None), False):
                return evs
        elif what == "again":
            i = r.randrange(len(sets))
            evs.append(dict(k="again", of=i + 1, failed="", cols=columns(sets[i]), names=names(sets[i])))
        elif what == "func":
            evs.append(func(r))
        elif what == "cbd":
            evs.append(cbd(r, tmp))
        else:
            v = r.randint(-5, 12) / 2.0
            ps = sorted(r.randint(-5, 12) / 2.0 for _ in range(r.randint(1, 4)))
            o = guard(lambda: D.splitatvalue(v, *ps))
            ok = o.ok and o.value[1] == v
            evs.append(dict(k="split", v=int(2 * v), ps=[int(2 * p) for p in ps], sec=(-1 if o.value[0] is None else o.value[0]) if ok else -9, failed="" if ok else "%s" % (o.exc,)))
    for i in range(len(sets)):
        evs.append(dict(k="again", of=i + 1, failed="", cols=columns(sets[i]), names=names(sets[i])))
    return evs


def func(r):
    """a function on an axis: its points are equidistant in the coordinates of the axis"""
    from pyx import graph
    from pyx.graph import axis, data
    a = r.randint(-3, 3)
    b = a + r.randint(1, 4)
    n = r.choice([2, 3, 5, 9])
    log = r.random() < 0.4
    div = not log and r.random() < 0.5
    own = r.choice([0, 1, 2, 3])      # which limits are those of the function itself
    sc = (lambda v: 10.0 ** v) if log else float
    ax = axis.log if log else axis.lin
    inner = (a if not own & 1 else a - r.randint(0, 2), b if not own & 2 else b + r.randint(0, 2))

    def do():
        param = own == 3 and r.random() < 0.4 and not div and not log
        if param:
            d = data.paramfunction("k", a, b, "u, v = k, 2*k+1", points=n, title=None)
            return d.columns["u"], d.columns["v"]
        g = graph.graphxy(width=5, x=ax(min=sc(inner[0]), max=sc(inner[1]), parter=None, painter=None), y=axis.lin(min=0, max=1, parter=None, painter=None))
        e = "y(x)=1/x" if div else "y(x)=2*log(x)/log(10)+1" if log else "y(x)=c*x+1"
        d = data.function(e, min=sc(a) if own & 1 else None, max=sc(b) if own & 2 else None, points=n, title=None, context=dict(c=2))
        cols = d.dynamiccolumns(g, {})
        cols = d.dynamiccolumns(g, {"x": "x"}) if r.random() < 0.5 else cols
        return cols["x"], cols["y"]
    o = guard(do)
    ev = dict(k="func", a=a, b=b, n=n, div=div, failed="" if o.ok else o.exc, xs=[], ys=[])
    if o.ok:
        xs, ys = o.value
        ev["xs"] = [int(round(1000 * (math.log10(x) if log else x))) for x in xs]
        ev["ys"] = [val(y if not div or y is None else 0) for y in ys]
    return ev


def cbd(r, tmp):
    """a map file"""
    from pyx import graph
    segs, body, addr = [], b"", 40
    for i in range(r.randint(0, 3)):
        wrap = r.random() < 0.3
        org = [r.randint(-540000, 540000), r.randint(-300000, 300000)]
        strokes = []
        for _ in range(r.randint(0, 4)):
            if r.random() < 0.6:
                strokes.append([r.choice([r.randint(0, 255), 0, 127, 128, 255]), r.choice([r.randint(0, 255), 0, 63, 128, 191]) | 0x40])
            else:
                dx, dy = (r.choice([r.randint(-200000, 200000), 65535, -65536, -1, 64, 32768, -32769]) for _ in range(2))
                x, y = struct.pack("<i", dx), struct.pack("<i", dy)
                strokes.append([x[2], x[3] & 0xbf, x[0], x[1], y[2], y[3], y[0], y[1]])
        seg = struct.pack("<3i2h", org[0], org[1], i, len(strokes), 0) + b"".join(map(bytes, strokes))
        # a segment crosses the date line when its extent says so
        long = (-150 * 3600 - 1, 150 * 3600 + 1) if wrap else r.choice([(-150 * 3600, 150 * 3600 + 1), (-150 * 3600 - 1, 150 * 3600), (0, 1)])
        segs.append(dict(org=org, wrap=wrap, rank=r.randint(0, 3), bytes=strokes, long=long, addr=addr + len(body), n=len(seg)))
        body += seg
    src = struct.pack("<5i20s", 0x20770002, 40 + len(body), len(segs), 0, 0, b"") + body
    for i, s in enumerate(segs):
        src += struct.pack("<6i2h", i, 0, 0, s["long"][1], s["long"][0], s["addr"], s["n"], s["rank"])
    lo, hi = (r.choice([None, None, 0, 1, 2]) for _ in range(2))

    def do():
        name = io.BytesIO(src)
        if r.random() < 0.5:
            name = os.path.join(tmp, "m%d.cbd" % (hash(src) % 10 ** 9))
            with open(name, "wb") as f:
                f.write(src)
        return graph.data.cbdfile(name, minrank=lo, maxrank=hi, title=None, n=0, x=1, y=2).columns
    o = guard(do)
    ev = dict(k="cbd", segs=[{k: s[k] for k in ("org", "wrap", "rank", "bytes")} for s in segs], minrank=-1 if lo is None else lo, maxrank=-1 if hi is None else hi,
              failed="" if o.ok else o.exc, rows=[], numbers=[])
    if o.ok:
        c = o.value
        ev["numbers"] = [int(n) for n in c["n"]]
        ev["rows"] = [[] if x is None or y is None else [int(round(3600 * x)), int(round(3600 * y))] for x, y in zip(c["x"], c["y"])]
    return ev


def run(ctx):
    tmp = tempfile.mkdtemp(prefix="verif-r09-")
    try:
        replay(ctx, tmp)
        traces = []
        for _ in range(ctx.n(3000, 30000)):
            ev = history(ctx.rng, tmp)
            if ev:
                traces.append(dict(ev=ev))
        ctx.sample({"trace": traces[len(traces) // 2]}, 3)
        ctx.validate("TableTrace", traces, key=lambda t, l, why: "trace:%s:%s%s" % (t["ev"][l - 1]["k"], why, ":" + t["ev"][l - 1]["failed"][:60] if why == "refused" else ""),
                     describe=lambda t, l, why: "%s: %s" % (why, readable(t["ev"][:l])), heap="8g")
    finally:
        shutil.rmtree(tmp)


def readable(ev):
    def dec(x):
        if isinstance(x, list) and x and all(isinstance(c, int) and 9 <= c < 127 for c in x):
            return "".join(map(chr, x))
        if isinstance(x, dict) and set(x) == {"t", "n", "s"}:
            return {"n": x["n"] / 1000, "z": None}.get(x["t"], "".join(map(chr, x["s"])))
        if isinstance(x, dict):
            return {k: (dec(v) if k not in ("of", "xs", "ps") else v) for k, v in x.items()}
        if isinstance(x, list):
            return [dec(v) for v in x]
        return x
    return json.dumps(dec(ev))
