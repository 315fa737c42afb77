"""X07: parsers of the output of TeX (spec/Messages.tla, MessagesMC.tla, MessagesTrace.tla)."""
import atexit, json, logging, os, re, tempfile
from vp import guard

FILES = ["a.tex", "b.tex", "c.tex", "b c.tex", "b (1).tex", "x.fd", "y.def", "y z.def", "g.eps", "g h.eps", "texput.aux", "dir/a.tex", "dir/e.eps"]
PARSERS = ["load", "load_def", "load_graphics", "no_aux", "no_nav", "no_toc", "box_warning", "font_warning", "package_warning", "rerun_warning", "nobbl_warning", "custom", "ignore", "warn", "start", "end"]
RUN = ["font_warning", "box_warning", "package_warning", "load_def", "load_graphics"]
PRINTABLE = {"text", "file", "quoted file", "file with text", "nested files", "missing file", "def", "quoted def", "missing def", "eps", "quoted eps", "missing eps", "no aux", "no ./aux",
             "no nav", "no toc", "hbox", "vbox", "font", "package", "rerun", "no bbl", "error"}


def passage(rng, kind):
    """a passage of the given kind, without its surrounding blanks; line passages start and end with newlines"""
    C = rng.choice

    def split(s, name):
        # TeX breaks its lines at some column
        if rng.random() < 0.3:
            at = s.index(name) + rng.randint(1, len(name) - 1)
            return s[:at] + "\n" + s[at:]
        return s
    if kind == "text":
        return "\nhello%s\n" % C(["", " world", " *", " a.tex"])
    if kind == "file":
        f = C(["a.tex", "./b.tex", "c.tex", "dir/a.tex", os.path.abspath("a.tex")])
        return split("(%s)" % f, f)
    if kind == "quoted file":
        f = C(["b c.tex", "./b c.tex", "a.tex", "b (1).tex"])
        return split('("%s"%s)' % (f, C(["", " [1]", " any text"])), f)
    if kind == "file with text":
        return "(%s%s%s)" % (C(["a.tex", "./b.tex"]), C([" ", "\n"]), C(["any text", "[1]", "see also", "LaTeX2e <2023-11-01> patch level 1"]))
    if kind == "nested files":
        return "(a.tex%s(b.tex%s)%s)" % (C([" ", "\n", " text "]), C(["", " text", " (c.tex)", "\n(anything)"]), C(["", " text", " (c.tex)", " \n(./c.tex (a.tex))"]))
    if kind == "missing file":
        return C(["(missing.tex)", '("missing file.tex")', "(missing)", "(a.texx)", "(./dir)"])
    if kind == "def":
        f = C(["x.fd", "./x.fd", "y.def"])
        return split("(%s)" % f, f)
    if kind == "quoted def":
        f = C(["y z.def", "./y z.def", "x.fd"])
        return split('("%s")' % f, f)
    if kind == "missing def":
        return C(["(missing.fd)", '("not there.def")', "(dir/missing.def)"])
    if kind == "eps":
        f = C(["g.eps", "./g.eps", "dir/e.eps"])
        return split("<%s>" % f, f)
    if kind == "quoted eps":
        f = C(["g h.eps", "./g h.eps", "g.eps"])
        return split('<"%s">' % f, f)
    if kind == "missing eps":
        return C(["<missing.eps>", '<"not there.eps">', "<dir/missing.eps>"])
    if kind in ("no aux", "no nav", "no toc"):
        return "No file texput.%s." % kind[3:]
    if kind == "no ./aux":
        return "No file ./texput.aux."
    if kind == "hbox":
        return "\n%s \\hbox (%s) %s\n%s\n" % (C(["Overfull", "Underfull"]), C(["1.5pt too wide", "badness 10000"]), C(["in paragraph at lines 1--2", "detected at line 7"]),
                                              C(["", "[]\\tenrm abc\n", "[][]\n\\tenrm more of\nit\n"]))
    if kind == "vbox":
        return "\n%s \\vbox (%s) detected at line 3\n\n" % (C(["Overfull", "Underfull"]), C(["2.0pt too high", "badness 10000"]))
    if kind == "hbox and error":
        return "\nOverfull \\hbox (1.0pt too wide) detected at line 3\n|\n! Undefined control sequence.\n\n"
    if kind == "font":
        return "\nLaTeX Font Warning: Font shape `OT1/cmr/m/x' (x) undefined%s\n" % C(["", "\n(Font)              using `OT1/cmr/m/n' instead on input line 3.", "\n(Font)     using\n(Font)     it"])
    if kind == "package":
        return "\n%s foo %s: Bad thing (really)%s\n" % (C([("Package", "Warning"), ("package", "warning"), ("Package", "WARNING")]) + (C(["", "\n(foo)               on input line 2.", "\n(foo)    a\n(foo)    b"]),))
    if kind == "rerun":
        return "\nLaTeX Warning: Label(s) may have changed. Rerun to get cross-references right.\n"
    if kind == "no bbl":
        return "\nNo file %s.bbl.\n" % C(["texput", "./texput"])
    if kind == "error":
        return C(["\n! Undefined control sequence.\nl.1 \\undefined\n", "\n! Missing number, treated as zero.\n", "\n! I can't find file `x'.\n"])
    if kind == "banner":
        return "\nThis is %sTeX, Version 3.141592653 (TeX Live 2023/Debian) (preloaded format=tex)\n" % C(["", "pdf", "e-", "XX 2 "])
    if kind == "scroll":
        return "\n*! Undefined control sequence.\n<*> \\raiseerror\n               %\n"
    if kind == "note":
        return "(see the transcript file for additional information)"
    if kind == "aux file":
        return C(["(./texput.aux)", "(texput.aux)"])
    if kind == "log":
        return C(["\nTranscript written on texput.log.\n", "\nTranscript written on /tmp/x\ny/texput.log.\n", '\nTranscript written on "/tmp/a b/texput.log".\n'])
    raise ValueError(kind)


def message(rng, kinds):
    texts = [passage(rng, k) for k in kinds]
    s = C = ""
    for t in texts:
        # what is written on lines of its own
        C = "" if not s or s.endswith("\n") or t.startswith("\n") else rng.choice([" ", "\n", "  "])
        s += C + (t[1:] if t.startswith("\n") and (not s or s.endswith("\n")) else t)
    return s, texts


def bare(s):
    return "".join(s.split())


class Warnings(logging.Handler):

    def __init__(self):
        logging.Handler.__init__(self)
        self.got = []

    def emit(self, record):
        self.got.append(record.getMessage())


def parser(name):
    from pyx import text
    T = text.texmessage
    if name == "no_toc":
        return T.no_file("toc")
    if name == "custom":
        return T.pattern(re.compile("^hello.*$", re.MULTILINE), "greetings")
    return getattr(T, name)


def run(ctx):
    from pyx import text
    old = os.getcwd()
    logger = logging.getLogger("pyx")
    level, prop = logger.level, logger.propagate
    h = Warnings()
    logger.addHandler(h)
    logger.setLevel(logging.WARNING)
    logger.propagate = False
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        try:
            os.mkdir("dir")
            for f in FILES:
                open(f, "w").close()
            check(ctx, h)
        finally:
            os.chdir(old)
            logger.removeHandler(h)
            logger.setLevel(level)
            logger.propagate = prop


def check(ctx, h):
    from pyx import text
    rng = ctx.rng
    P = {name: parser(name) for name in PARSERS}
    res = ctx.model_check("MessagesMC", constants=dict(MaxLen=ctx.n(3, 3)), invariants=["Ordered", "Idempotent", "Commute", "Emit"], label="all short messages", heap="6g")
    cases = sorted(res.prints)
    rng.shuffle(cases)
    calls = 0
    for line in cases:
        case = json.loads(line[1:])
        for _ in range(ctx.n(1, 6)):
            s, texts = message(rng, case["s"])
            for name in PARSERS:
                want = case["r"][name]
                if want["keep"] == [0]:
                    continue
                calls += 1
                del h.got[:]
                o = guard(P[name], s)
                data = dict(parser=name, kinds=case["s"], message=s, got=o.value if o.ok else o.exc, warnings=list(h.got))
                if not o.ok and (want["ok"] or not o.exc.startswith("TexResultError")):
                    ctx.violation("parser-%s-failed" % name, "texmessage.%s fails for a message of %s: %s" % (name, case["s"], o.exc), data)
                elif o.ok and not want["ok"]:
                    ctx.violation("parser-%s-accepted" % name, "texmessage.%s accepts a message of %s" % (name, case["s"]), data)
                elif o.ok:
                    keep = "".join(bare(texts[i - 1]) for i in want["keep"])
                    if bare(o.value) != keep:
                        ctx.violation("parser-%s-left" % name, "texmessage.%s leaves something else than the passages %s of %s: %r" % (name, want["keep"], case["s"], o.value), data)
                    elif name == "warn":
                        if len(h.got) != (1 if s else 0) or s and bare(h.got[0]) != bare("ignoring TeX warnings:" + s):
                            ctx.violation("parser-warn-warnings", "texmessage.warn does not report what it drops: %s" % h.got, data)
                    else:
                        warned = [bare(w.split("\n", 1)[-1]) for w in h.got]
                        if warned != [bare(texts[i - 1]) for i in want["warns"]]:
                            ctx.violation("parser-%s-warnings" % name, "texmessage.%s reports %s for a message of %s" % (name, h.got, case["s"]), data)
    ctx.note(short_messages=len(cases), parser_calls=calls)
    ctx.traces += len(cases)

    traces = []
    kinds = sorted(set(json.loads(cases[0][1:])["s"]) | {k for c in cases for k in json.loads(c[1:])["s"]})
    for _ in range(ctx.n(3000, 60000)):
        ev = []
        for _ in range(2):
            ks = [rng.choice(kinds) for _ in range(rng.randint(0, 7))]
            if rng.random() < 0.2:
                ks += ["banner", "scroll"] if rng.random() < 0.5 else []
            if ks.count("log") > 1:
                ks = [k for k in ks if k != "log"] + ["log"]
            ps = [rng.choice(PARSERS[:12] if rng.random() < 0.9 else PARSERS) for _ in range(rng.randint(1, 8))]
            if "nobbl_warning" in ps:
                # (it may take blank lines, which end box warnings, along)
                ps.sort(key=lambda p: p == "nobbl_warning")
            s, texts = message(rng, ks)

            def chain():
                r = s
                for p in ps:
                    r = P[p](r)
                return r
            o = guard(chain)
            ev.append(dict(k="parsers", ps=ps, s=ks, texts=[bare(t) for t in texts], got=bare(o.value) if o.ok else "",
                           failed="" if o.ok else "tex" if o.exc.startswith("TexResultError") else o.exc, raw=s))
        traces.append(dict(ev=ev))
    for _ in range(ctx.n(40, 600)):
        traces.append(dict(ev=engine(rng)))
    for t in traces[-1:]:
        ctx.sample(t["ev"][:3])

    def key(t, l, why):
        e = t["ev"][l - 1]
        return "%s-%s%s" % (e["k"], why, "-" + e["failed"].split(":")[0] if e["failed"] not in ("", "tex") else "")
    ctx.validate("MessagesTrace", traces, key=key, describe=lambda t, l, why: "%s: %s" % (why, json.dumps(t["ev"][l - 1])), chunk=1000, heap="4g")


def engine(rng):
    """texts which write messages, typeset by TeX"""
    from pyx import text
    ev = []
    given = [rng.choice(PARSERS[:12]) for _ in range(rng.choice([0, 0, 1, 2]))]
    base = RUN + given
    kw = dict(texmessages_run=[parser(p) for p in given])
    e = (text.SingleTexEngine if rng.random() < 0.5 else text.TexEngine)(**kw)
    insts = []
    try:
        for _ in range(rng.randint(2, 6)):
            ps = [rng.choice(PARSERS[:12]) for _ in range(rng.choice([0, 0, 1, 2, 3]))]
            own = set().union(*[OWN.get(p, set()) for p in base + ps])
            ks = []
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                ks.append(rng.choice(sorted(own)) if own and rng.random() < 0.85 else rng.choice(sorted(PRINTABLE)))
            s, texts = message(rng, ks)
            lines = s.split("\n")
            if max(len(x) for x in lines) > 75:
                continue
            src = "".join("\\immediate\\write16{%s}" % "".join({"\\": "\\string\\", "#": "\\string#", "%": "\\string%", "^": "\\string^", " ": "\\space "}.get(c, c) for c in line) for line in [""] + lines) if ks else ""
            o = guard(e.text_pt, 0, 0, src + "\\vrule width1bp", texmessages=[parser(p) for p in ps])
            i = getattr(e, "instance", e)
            if i not in insts:
                insts.append(i)
            ev.append(dict(k="engine", ps=base + ps, s=ks, failed="" if o.ok else "tex" if o.exc.startswith("TexResultError") else o.exc.split("\n")[0][:150], raw=s))
        return ev
    finally:
        for i in insts:
            atexit.unregister(i._cleanup)
            guard(i._cleanup)


OWN = {"load": {"file", "quoted file", "file with text", "nested files", "def", "quoted def"}, "load_def": {"def", "quoted def"}, "load_graphics": {"eps", "quoted eps"},
       "no_aux": {"no aux", "no ./aux"}, "no_nav": {"no nav"}, "no_toc": {"no toc"}, "box_warning": {"hbox", "vbox"}, "font_warning": {"font"}, "package_warning": {"package"},
       "rerun_warning": {"rerun"}, "nobbl_warning": {"no bbl"}, "custom": {"text"}}
