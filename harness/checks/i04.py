"""I04: files, options and tokens (spec/Lookup.tla, Tokens.tla, TokensMC.tla, LookupTrace.tla)."""
import importlib.util, io, json, os, shutil, stat, tempfile
from vp import guard

STEMS = ["foo", "bar", "baz", "a.b", "x", "cmr10", "q.eps", "10pt"]
EXTS = [".eps", ".epsi", ".pfb", ".pfa", ".tfm", ".lfs", ".b"]
FORMATS = [("graphic/figure", [".eps", ".epsi"]), ("type1 fonts", [".pfa", ".pfb"]), ("tfm", [".tfm"]), ("PyX", []), ("lfs", [".lfs"]),
           ("dvips config", []), ("other", ["", ".b"]), ("vf", [".b", ".eps"])]
METHODS = ["local", "internal", "recursivedir", "ls-R", "pykpathsea", "kpsewhich", "locate"]


def pool(rng):
    """few names, so that they meet"""
    return [s + e for s in rng.sample(STEMS, rng.randint(2, 4)) for e in rng.sample(EXTS, rng.randint(1, 3)) + [""]]


def write(path, content):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(content)


def value(rng):
    """an option value: its text and what it means as other types"""
    kind = rng.choice(["int", "float", "bool", "words", "words", "text"])
    v = dict(text="", int="-", float="-", bool="-", words=[])
    if kind == "int":
        i = rng.randint(-50, 5000)
        v.update(text=str(i), int=str(i), float=repr(float(i)))
    elif kind == "float":
        f = rng.choice([0.25, 1.5, -3.75, 1e3, 1e-2])
        v.update(text=repr(f), float=repr(f))
    elif kind == "bool":
        t = rng.choice(["yes", "True", "ON", "1", "no", "false", "Off", "0"])
        v.update(text=t, bool=repr(t.lower() in ("yes", "true", "on", "1")))
        if t in "10":
            v.update(int=t, float=repr(float(t)))
    else:
        words = [[rng.choice(["a", "bc", "/usr", "SPACE", "SPACE", "BLANK", "_", "-"]) for _ in range(rng.randint(1, 4))] for _ in range(rng.randint(1, 4))]
        v.update(text=rng.choice([" ", "  "]).join("".join(w) for w in words), words=words)
        return v
    v["words"] = [[v["text"]]]
    return v


def wordsvalue(words):
    return dict(text=" ".join("".join(w) for w in words), int="-", float="-", bool="-", words=words)


def internal_layer(path):
    """the options of the configuration file delivered with PyX"""
    res, section = [], None
    for line in open(path, encoding="utf-8"):
        line = line.strip()
        if not line or line.startswith("#"):
            continue
        if line.startswith("["):
            section = line[1:-1]
            continue
        o, v = [x.strip() for x in line.split("=", 1)]
        d = wordsvalue([[w] for w in v.split()])
        d["text"] = v
        try:
            d["float"] = repr(float(v))
            d["int"] = repr(int(v))
        except ValueError:
            pass
        if v in "10":
            d["bool"] = repr(v == "1")
        res.append(dict(s=section, o=o.lower(), v=d))
    return res


OPTIONS = [("general", "space"), ("text", "wait"), ("text", "tex"), ("text", "texipc"), ("text", "psfontmaps"), ("filelocator", "methods"),
           ("mine", "alpha"), ("mine", "beta"), ("text", "new"), ("Mine", "alpha")]


class Scenario:

    def __init__(self, rng, root, pyxdir, base):
        self.rng, self.root, self.pyxdir = rng, root, pyxdir
        self.cwd = os.path.join(root, "cwd")
        self.home = os.path.join(root, "home")
        os.makedirs(self.cwd)
        os.makedirs(self.home)
        self.a = dict(local=[], internal=[], dirs=[], lsr=[], kps=[], haskps=True, loc=[], hasloc=True)
        self.layers = [base]
        self.pool = pool(rng)
        self.options = {}

    def some(self, n):
        return sorted({self.rng.choice(self.pool) for _ in range(n)})

    def files(self):
        rng, root, a = self.rng, self.root, self.a
        a["local"] = self.some(rng.randint(0, 4))
        for n in a["local"]:
            write(os.path.join(self.cwd, n), "local:" + n)
        data = os.path.join(self.pyxdir, "data", "lfs")
        # files are in directories of their extension
        a["internal"] = sorted(os.listdir(data)) + ["pyxrc"]
        # directory trees
        dirs = []
        for k in range(rng.randint(0, 3)):
            d = os.path.join(root, rng.choice(["tree", "my tree"]) + str(k))
            os.makedirs(d)
            inside = self.some(rng.randint(0, 5))
            for n in inside:
                sub = rng.choice(["", "", "s1", "s1/deep", "s2"])
                write(os.path.join(d, sub, n), "dir%d:%s" % (k, n))
            a["dirs"].append(dict(id="dir%d" % k, names=inside))
            dirs.append(d)
        if dirs or rng.random() < 0.5:
            self.options["filelocator", "recursivedir"] = dirs
        else:
            self.options["filelocator", "recursivedir"] = []
        # ls-R
        lsr = []
        for k in range(rng.randint(0, 2)):
            base = os.path.join(root, "lsr%d" % k)
            lines = ["% ls-R -- filename database", ""] if rng.random() < 0.5 else []
            for d in ["./a", "./b/c"][:rng.randint(1, 2)]:
                inside = self.some(rng.randint(0, 4))
                lines += [d + ":"] + inside + [""]
                for n in inside:
                    there = rng.random() < 0.85
                    id = "lsr%d%s:%s" % (k, d, n)
                    if there:
                        write(os.path.join(base, d, n), id)
                    a["lsr"].append(dict(name=n, id=id, there=there))
            write(os.path.join(base, "ls-R"), "\n".join(lines) + "\n")
            lsr.append(os.path.join(base, "ls-R"))
        self.options["filelocator", "ls-R"] = lsr
        # kpsewhich
        script = os.path.join(root, "kps tool", "kpsewhich")
        lines = ["#!/bin/sh", 'test "$1" = --format || exit 2', 'case "$2:$3" in']
        for n in self.some(rng.randint(0, 6)):
            for fn in {rng.choice(FORMATS)[0] for _ in range(2)}:
                there = rng.random() < 0.85
                path = os.path.join(root, "texmf", fn.replace("/", "_").replace(" ", "_"), n)
                id = "kps:%s:%s" % (fn, n)
                if there:
                    write(path, id)
                a["kps"].append(dict(format=fn, name=n, id=id, there=there))
                lines.append('"%s:%s") echo "%s";;' % (fn, n, path))
        lines.append("esac")
        a["haskps"] = rng.random() < 0.8
        if a["haskps"]:
            write(script, "\n".join(lines) + "\n")
            os.chmod(script, 0o755)
        self.options["filelocator", "kpsewhich"] = script
        # locate: every known path in which the argument appears
        script = os.path.join(root, "bin", "locate")
        lines = ["#!/bin/sh", "grep -F -e \"$1\" '%s' || true" % os.path.join(root, "locatedb")]
        db = []
        for d in ["u", "u/v", "w.eps"]:
            for n in self.some(rng.randint(0, 3)):
                there = rng.random() < 0.85
                path = os.path.join(root, "loc", d, n)
                id = "loc:%s:%s" % (d, n)
                if there:
                    write(path, id)
                a["loc"].append(dict(name=n, id=id, there=there))
                db.append(path)
        a["hasloc"] = rng.random() < 0.8
        write(os.path.join(root, "locatedb"), "".join(p + "\n" for p in db))
        if a["hasloc"]:
            write(script, "\n".join(lines) + "\n")
            os.chmod(script, 0o755)
        self.options["filelocator", "locate"] = script

    def configure(self):
        """the user's configuration and the one named by an environment variable"""
        rng = self.rng
        ms = rng.sample(METHODS, rng.randint(1, 5))
        self.options["filelocator", "methods"] = ms
        space = rng.choice(["SPACE", "SPACE", "BLANK", "_", ""])
        if space != "SPACE":
            self.options["general", "space"] = space
        # which file has the right value of an option; a wrong one may be in the other
        layers = [{}, {}]
        which = {}
        both = rng.random() < 0.8
        for key, v in self.options.items():
            if key == ("general", "space"):
                d = dict(text=v, int="-", float="-", bool="-", words=[[v]] if v else [])
            elif isinstance(v, list):
                ws = []
                for w in v:
                    ps = []
                    for i, x in enumerate(w.split(" ")):
                        ps += ([space or "?"] if i else []) + [x]
                    ws.append(ps)
                d = wordsvalue(ws)
            else:
                d = wordsvalue([[v]])
            i = rng.randint(0, 1) if both else 0
            layers[i][key] = d
            if i == 1 and rng.random() < 0.5:
                layers[0][key] = wordsvalue([["nonsense"]])
        for key in OPTIONS[1:5] + OPTIONS[6:]:
            for i in (0, 1):
                if rng.random() < 0.35 and (both or i == 0):
                    layers[i][key] = value(rng)
        if not both:
            layers = layers[:1]
        paths = [os.path.join(self.home, ".pyxrc"), os.path.join(self.root, "other", "rc file")]
        if not both and rng.random() < 0.5:
            paths = paths[1:]
        env = {"HOME": self.home, "PYXRC": None}
        for path, layer in zip(paths, layers):
            text = "# user configuration\n"
            for s in sorted({k[0] for k in layer}, key=lambda s: rng.random()):
                text += "[%s]\n" % s
                for (s2, o), v in layer.items():
                    if s2 == s:
                        text += "%s %s %s\n" % (rng.choice([o, o.upper()]), rng.choice("=:"), v["text"])
            write(path, text)
            if path == paths[-1] and path.endswith("rc file"):
                env["PYXRC"] = path
            self.layers.append([dict(s=s, o=o.lower(), v=v) for (s, o), v in layer.items()])
        return env

    def bad(self):
        # paths with blanks need a replacement text
        return self.options.get(("general", "space")) == "" and any(" " in d for d in self.options["filelocator", "recursivedir"])


def load(env, cwd, pyxdir):
    saved = {k: os.environ.get(k) for k in env}
    try:
        for k, v in env.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v
        spec = importlib.util.spec_from_file_location("pyx_config_scenario", os.path.join(pyxdir, "config.py"))
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        return m
    finally:
        for k, v in saved.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v


def identify(content, pyxdir, internals):
    if isinstance(content, str):
        content = content.encode("ascii", "surrogateescape")
    try:
        return content.decode("ascii") if len(content) < 200 and b":" in content else internals.get(content, "unknown")
    except UnicodeDecodeError:
        return "unknown"


def scenario(ctx, pyxdir, base, internals):
    rng = ctx.rng
    root = tempfile.mkdtemp(prefix="i04")
    while "_" in root or "SPACE" in root:
        os.rmdir(root)
        root = tempfile.mkdtemp(prefix="i04")
    cwd = os.getcwd()
    ev = []
    try:
        sc = Scenario(rng, root, pyxdir, base)
        sc.files()
        env = sc.configure()
        if sc.bad():
            return None
        os.chdir(sc.cwd)
        o = guard(load, env, sc.cwd, pyxdir)
        ev.append(dict(k="setup", a=sc.a, layers=sc.layers, failed="" if o.ok else o.exc))
        if not o.ok:
            return ev
        config = o.value
        requests = []
        known = sorted({n for n in sc.a["local"]} | {n for d in sc.a["dirs"] for n in d["names"]} | {x["name"] for k in ("lsr", "kps", "loc") for x in sc.a[k]})
        for _ in range(rng.randint(4, 10)):
            if requests and rng.random() < 0.3:
                name, fs = rng.choice(requests)
            else:
                fs = [rng.choice(FORMATS) for _ in range(rng.choice([1, 1, 1, 2]))]
                if len({f[0] for f in fs}) < len(fs):
                    fs = fs[:1]
                r = rng.random()
                if known and r < 0.7:
                    name = rng.choice(known)
                    if rng.random() < 0.6:
                        name = os.path.splitext(name)[0]
                else:
                    name = rng.choice(sc.pool + ["pyxrc", "10pt"])
                requests.append((name, fs))
            ascii = rng.random() < 0.3

            def get():
                with config.open(name, [config.format(*f) for f in fs], ascii=ascii) as f:
                    return f.read()
            o = guard(get)
            got, failed = "", ""
            if o.ok:
                if isinstance(o.value, str) != ascii:
                    got = "mode"
                else:
                    got = identify(o.value, pyxdir, internals)
            else:
                failed = "missing" if o.exc.startswith(("OSError: Could not locate", "FileNotFoundError: Could not locate")) else o.exc
            ev.append(dict(k="open", name=name, formats=[dict(name=f[0], exts=f[1]) for f in fs],
                           suffixes=sorted({e for f in fs for e in f[1] if name.endswith(e)}), got=got, failed=failed))
        for _ in range(rng.randint(4, 10)):
            s, o = rng.choice(OPTIONS)
            known = [x["v"] for l in sc.layers for x in l if (x["s"], x["o"]) == (s, o)]
            hows = ["get", "list"] + ([h for h in ("int", "float", "bool") if known[-1][h] != "-"] if known else ["int", "float", "bool"])
            how = rng.choice(hows)
            default = rng.random() < 0.5
            f = dict(get=config.get, list=config.getlist, int=config.getint, float=config.getfloat, bool=config.getboolean)[how]
            token = object()
            r = guard(lambda: f(s, rng.choice([o, o.upper()]), *([token] if default else [])))
            got, failed, isdefault = "" if how != "list" else [], "", False
            if r.ok:
                isdefault = r.value is token
                if not isdefault:
                    got = r.value if how in ("get", "list") else repr(r.value)
                    if how != "list" and not isinstance(r.value, dict(get=str, int=int, float=float, bool=bool)[how]):
                        got = "wrong type: %r" % (r.value,)
            else:
                failed = "missing" if r.exc.startswith(("NoOptionError", "NoSectionError")) else r.exc
            ev.append(dict(k="option", s=s, o=o, how=how, default=default, isdefault=isdefault, got=got, failed=failed))
        return ev
    finally:
        os.chdir(cwd)
        shutil.rmtree(root)


def tokentrace(rng):
    from pyx import reader
    n = rng.randint(1, 60)
    s = "".join(rng.choice("aabcXYZ019.-" + "  \n\t\r" + "()<>[]{}/%") for _ in range(n))
    if rng.random() < 0.3:
        s = rng.choice(["/Encoding 256 array\n", "dup 65 /A put ", "% comment\r\n", "[/A/B", "{1 2}"]) + s
    binary = rng.random() < 0.5
    cls = reader.PSbytes_tokenizer if binary else reader.PStokenizer
    conv = (lambda t: t.encode("latin1")) if binary else (lambda t: t)
    start = None
    args = {}
    p = 1
    data = s
    form = rng.choice(["plain", "eat", "start", "startnoeat"])
    if form == "plain":
        args = dict(eattokensep=0)
    else:
        if form != "eat":
            start = rng.choice(["/Subrs", "@@", "begin %x"])
            pre = "".join(rng.choice("ab /[%\n") for _ in range(rng.randint(0, 8)))
            data = pre + start + s
            if data.index(start) != len(pre):
                return None
        if form == "startnoeat":
            args = dict(eattokensep=0)
        else:
            if s[0] not in " \n\t\r()<>[]{}/%":
                s = " " + s
                data = (pre + start if start else "") + s
            p = 2 if s[0] in " \n\t\r" else 1
    off = len(data) - len(s)
    o = guard(lambda: cls(conv(data), conv(start) if start is not None else None, **args))
    ev = [dict(k="text", s=list(s), p=p, failed="" if o.ok else o.exc)]
    if not o.ok:
        return ev
    c = o.value
    while True:
        pos = c.pos
        if rng.random() < 0.15 and pos < len(data) - 1:
            k = rng.randint(1, len(data) - pos)
            r = guard(c.getbytes, k)
            ev.append(dict(k="bytes", n=k, got=list(str(r.value, "latin1") if binary else r.value) if r.ok else [], failed="" if r.ok else r.exc))
        else:
            r = guard(c.gettoken, seconds=5)
            ev.append(dict(k="token", got=list(str(r.value, "latin1") if binary else r.value) if r.ok else [], failed="" if r.ok else r.exc, pos=c.pos - off + 1))
        if not r.ok or c.pos <= pos or len(ev) > 80:
            return ev


def run(ctx):
    import pyx, logging
    from pyx import reader
    logging.getLogger("pyx").setLevel(logging.ERROR)
    pyxdir = os.path.dirname(os.path.abspath(pyx.__file__))
    base = internal_layer(os.path.join(pyxdir, "data", "pyxrc"))
    internals = {}
    for d, n in [("lfs", n) for n in os.listdir(os.path.join(pyxdir, "data", "lfs"))] + [("", "pyxrc")]:
        internals[open(os.path.join(pyxdir, "data", d, n), "rb").read()] = "internal:" + n
    # equal files can not be told apart
    # 1. all short texts
    res = ctx.model_check("TokensMC", constants=dict(MaxLen=ctx.n(6, 7)), invariants=["Disjoint", "Pure", "Nothing", "Emit"], label="all short texts", heap="8g", timeout=2000)
    n = 0
    for p in res.prints:
        p = json.loads(p[1:])
        letters = "".join(ctx.rng.choice("aZ0.-\\") if c == "a" else c for c in p["s"])
        # the other characters of their kind
        text = "".join(ctx.rng.choice(" \t") if c == " " else ctx.rng.choice("\n\r") if c == "\n" else ctx.rng.choice("()<>[]{}") if c == "[" else c for c in letters)
        for cls, data in ((reader.PStokenizer, text), (reader.PSbytes_tokenizer, text.encode("ascii"))):
            c = cls(data + data[:0] if p["t"] else data, eattokensep=0) if data else None
            for f, t, nx in p["t"]:
                o = guard(c.gettoken, seconds=5)
                n += 1
                if not o.ok:
                    ctx.violation("%s-%s" % (cls.__name__, o.exc.split(":")[0]), "%r at %d: %s" % (data, f - 1, o.exc), dict(text=text))
                    break
                if o.value != data[f - 1:t - 1] or c.pos != nx - 1:
                    ctx.violation("%s-token" % cls.__name__, "%r at %d: %r, continues at %d" % (data, f - 1, o.value, c.pos), dict(text=text))
                    break
        ctx.traces += 1
    ctx.note(tokens_of_all_short_texts=n)
    # 2. longer texts
    traces = []
    for _ in range(ctx.n(1200, 12000)):
        ev = tokentrace(ctx.rng)
        if ev is not None:
            traces.append(dict(ev=ev))
    ctx.note(token_traces=len(traces))
    # 3. files and options
    k = 0
    for _ in range(ctx.n(350, 4000)):
        ev = scenario(ctx, pyxdir, base, internals)
        if ev is not None:
            traces.append(dict(ev=ev))
            k += 1
    ctx.note(arrangements=k)

    def key(t, l, why):
        e = t["ev"][l - 1]
        if e["k"] == "open":
            return "open-%s%s" % (why, "-" + e["failed"].split(":")[0] if e["failed"] not in ("", "missing") else "")
        return "%s-%s" % (e["k"], why)
    for t in traces[:1] + traces[-1:]:
        ctx.sample(dict(ev=t["ev"][:4]))
    ctx.validate("LookupTrace", traces, key=key, describe=lambda t, l, why: "%s: %s" % (why, json.dumps(t["ev"][l - 1])), chunk=400, heap="4g")
