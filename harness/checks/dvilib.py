"""Shared by X01, X02 and X03: programs for spec/DVI.tla, run by the real DVI interpreter (spec/DVITrace.tla)."""
import json, os, random, shutil, tempfile
from vp import guard
import dvidoc

M20 = 1 << 20
SIZES = [655360, 327680, 524288, 786432, 1310720]
COLORS = ["rgb 1 0 0", "gray 0.5", "cmyk 0 1 0.5 0", "hsb 0.5 1 0.25"]
ENV = [dict(id="vta", kind="tfm", widths=[[65, 524288], [66, 349525]], packets=[], locals=[]),
       dict(id="vtv", kind="vf", widths=[[65, 786432], [66, 262144]],
            packets=[[65, [["push"], ["set", 65], ["w", 4096], ["w0"], ["pop"], ["down", 40960], ["set", 66]]],
                     [66, [["fnt", 5], ["color", "rgb 0 0 1"], ["set", 66], ["endgroup"], ["right", -8192], ["setrule", 81920, 409600], ["put", 65], ["z0"], ["x0"], ["set", 65]]]],
            locals=[[7, "vta", 1048576], [5, "vta", 524288]])]


class Scratch:
    def __enter__(self):
        self.old = os.getcwd()
        self.dir = tempfile.mkdtemp(prefix="verif-dvi-")
        os.chdir(self.dir)
        with open("pyxrc", "w") as f:
            f.write("[filelocator]\nmethods = local internal\n")
        os.environ["PYXRC"] = os.path.join(self.dir, "pyxrc")
        return self

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.dir)


class Gen:
    """programs: kinds of commands with weights"""

    def __init__(self, r, special=0.0, unit=1, eps=False):
        self.r, self.special, self.unit = r, special, unit
        self.marks = 0
        self.eps = eps

    def dim(self, vfz):
        r = self.r
        if vfz:
            # a multiple of 2^12: no rounding in the scaling of the packet
            return r.randint(-200, 300) << 12
        return r.choice([r.randint(-200, 200), r.randint(-40000, 60000), r.randint(-900000, 1200000)]) // self.unit

    def program(self, env, fonts, f, n, vfz=False):
        """a program of about n commands starting with font f ("" for none); fonts: {number: id}"""
        r, prog, stack, groups = self.r, [], 0, 0
        local = dict(fonts)
        cur = f
        gen = 0
        while gen < n:
            gen += 1
            x = r.random()
            if x < 0.3 and cur:
                prog.append([r.choice(["set", "set", "set", "put"]), r.choice(env[cur]["widths"])[0]])
            elif x < 0.37:
                prog.append([r.choice(["setrule", "putrule"]), abs(self.dim(vfz)) if r.random() < 0.9 else -abs(self.dim(vfz)), abs(self.dim(vfz)) if r.random() < 0.9 else 0])
            elif x < 0.62:
                op = r.choice(["right", "w", "x", "down", "y", "z"])
                prog.append([op, self.dim(vfz)])
            elif x < 0.72:
                prog.append([r.choice(["w0", "x0", "y0", "z0"])])
            elif x < 0.8:
                prog.append(["push"])
                stack += 1
            elif x < 0.87:
                if stack:
                    prog.append(["pop"])
                    stack -= 1
            elif x < 0.95:
                if local:
                    num = r.choice(sorted(local))
                    prog.append(["fnt", num])
                    cur = local[num]
            else:
                prog.append(["nop"])
            if r.random() < self.special:
                y = r.random()
                if y < 0.55:
                    k = r.choice(["color", "color", "rotate", "scale"]) if groups < 4 else "color"
                    prog.append(["color", r.choice(COLORS)] if k == "color" else ["rotate", r.choice([1, 2, 3, 4, -1])] if k == "rotate" else ["scale", r.choice([1, -1, 2]), r.choice([1, -1, 2])])
                    groups += 1
                elif y < 0.85 and groups:
                    prog.append(["endgroup"])
                    groups -= 1
                elif y < 0.88 and not vfz and self.eps:
                    prog.append(dvidoc.epscommand(r, self.unit))
                elif y < 0.95 and not vfz:
                    self.marks += 1
                    prog.append(["marker", "m%d" % self.marks])
                else:
                    prog.append(["special", r.choice(["color push red", "papersize=1in,2in", "header=l3backend-dvips.pro", "sch\u00f6n", "pyx:color_begin rgb 1 0 0", ""])])
        if vfz:
            prog += [["pop"]] * stack
        if vfz or r.random() < 0.7:
            prog += [["endgroup"]] * groups
        return prog


def fonts_for(r, lib, gen, vfs, tag):
    """a few plain fonts, and virtual fonts on top of them; returns their env"""
    env = {}
    for i in range(r.choice([1, 2, 3])):
        codes = r.sample([0, 1, 13, 34, 40, 41, 65, 66, 92, 127, 128, 200, 255], r.choice([1, 2, 4]))
        f = dict(id="%sp%d" % (tag, i), kind="tfm", widths=[[c, r.choice([0, r.randint(-M20, 2 * M20), r.randint(0, M20), r.randint(1, 15) << 16])] for c in codes], packets=[], locals=[])
        env[f["id"]] = f
        lib.add(f, design=r.choice([10, 12, 5]) * M20)
    for i in range(vfs):
        ids = r.sample(sorted(env), r.randint(0, min(3, len(env))))
        nums = r.sample([0, 1, 2, 7, 63, 64, 255, 300, 70000, -3], len(ids))
        f = dict(id="%sv%d" % (tag, i), kind="vf", widths=[], packets=[], locals=[[n, j, r.choice([M20, M20, M20 // 2, 5 * M20 // 4])] for n, j in zip(nums, ids)])
        if r.random() < 0.2 and f["locals"]:
            # one font twice, in two sizes
            f["locals"].append([99, ids[0], M20 // 4])
        local = {n: j for n, j, s in f["locals"]}
        for c in r.sample([0, 40, 65, 66, 127, 128, 255], r.choice([1, 2, 3])):
            f["widths"].append([c, r.randint(-20, 300) << 12])
            f["packets"].append([c, gen.program(env, local, f["locals"][0][1] if f["locals"] else "", r.choice([0, 1, 2, 4, 8]), vfz=True)])
        env[f["id"]] = f
        lib.add(f, design=r.choice([10, 12]) * M20)
    return env


def events(lib, env, between, pages, failed, post):
    ev = [dict(k="env", fonts=list(env.values()))]
    for i, (counters, prog) in enumerate(pages):
        ev += [dict(k="cmd", c=c) for c in between[i]]
        ev.append(dict(k="bop"))
        ev += [dict(k="cmd", c=c) for c in prog]
        if i < len(failed):
            ev.append(failed[i])
            if failed[i]["failed"]:
                return ev
    ev += [dict(k="cmd", c=c) for c in between[-1]]
    ev.append(dict(k="post", nothing=post[0], wrongid=post[1]))
    return ev


def trace(r, lib, env, pages, between, unit=1, mag=1000, single=False, ids="right"):
    data = dvidoc.dvi(r, pages, unit, mag, design=lib.dvidesign(), between=between)
    o = guard(dvidoc.read, data, lib, pages, unit, mag, single, ids, seconds=30)
    if o.ok:
        evs, post = o.value
    else:
        evs, post = [], False
        evs = [dict(k="eop", failed=str(o.exc), single=single, got=[], marks=[])]
        pages = pages[:1] if len(pages) == 1 else pages
    return dict(unit=unit, mag=mag, single=single, pages=json.dumps(pages)[:1500], ev=events(lib, env, between, pages, evs, post) if o.ok else blame(env, between, pages, evs[0]))


def blame(env, between, pages, e):
    """the file could not be read: report it at the end of its last page"""
    ev = [dict(k="env", fonts=list(env.values()))]
    for i, (counters, prog) in enumerate(pages):
        ev += [dict(k="cmd", c=c) for c in between[i]] + [dict(k="bop")] + [dict(k="cmd", c=c) for c in prog]
        ev.append(e)
        break
    return ev


def short(r, lib, prog):
    """a program of DVIMC"""
    return trace(r, lib, {f["id"]: f for f in ENV}, [([1] + [0] * 9, [["fnt", 2]] + prog)],
                 [[["fntdef", 2, "vta", 655360], ["fntdef", 3, "vtv", 327680]], []], mag=r.choice([1000, 500, 2000]))


def document(r, lib, tag, special, vfs, pages):
    unit = r.choice([1, 1, 1, 16])
    mag = r.choice([1000, 1000, 500, 2000, 1440])
    gen = Gen(r, special, unit, mag == 1000)
    env = fonts_for(r, lib, gen, vfs, tag)
    nums = r.sample([0, 1, 5, 63, 64, 255, 256, 70000, -1, -70000], min(6, len(env) + 1))
    ids = sorted(env)
    if vfs:
        ids = [i for i in ids if env[i]["kind"] == "vf"] + ids
    fonts, defs = {}, []
    for n in nums:
        i = r.choice(ids)
        # small, usual and huge sizes (the scaling algorithm halves sizes from 2^23 on)
        z = r.choice([s // unit for s in SIZES] + ([10485760, 20971520 + 256] if not special and unit == 1 and not vfs else []))
        defs.append(["fntdef", n, i, z])
        fonts[n] = i
    between, ps = [], []
    k = r.randint(1, len(defs))
    between.append([[c for c in [["nop"], d] if c != ["nop"] or r.random() < 0.2] for d in defs[:k]])
    between[0] = [c for cs in between[0] for c in cs]
    have = {d[1]: d[2] for d in defs[:k]}
    for p in range(pages):
        prog = gen.program(env, have, "", r.choice([3, 8, 15, 30]))
        # fonts may also be defined between pages and inside of them
        rest = [d for d in defs if d[1] not in have]
        if rest and r.random() < 0.5:
            d = rest[0]
            have[d[1]] = d[2]
            if r.random() < 0.5:
                at = r.randint(0, len(prog))
                prog[at:at] = [d, ["fnt", d[1]]] if not any(c[0] in ("set", "put") for c in prog[at:]) or True else [d]
                # the characters of the program belong to the font in force: end the program at the new font
                prog = prog[:at + 2] + gen.program(env, have, d[2], 6)
                prog = balance(prog)
                between.append([])
            else:
                between.append([["nop"]] * r.choice([0, 1]) + [d])
        else:
            between.append([["nop"]] * r.choice([0, 0, 1]))
        ps.append(([r.randint(0, 9) for i in range(10)], prog))
    return trace(r, lib, env, ps, between, unit=unit, mag=mag, single=r.random() < 0.2, ids=r.choice(["right", "none"]))


def balance(prog):
    """drop pops and group ends without a begin"""
    res, stack, groups = [], 0, 0
    for c in prog:
        if c[0] == "push":
            stack += 1
        elif c[0] == "pop":
            if not stack:
                continue
            stack -= 1
        elif c[0] in ("color", "rotate", "scale"):
            groups += 1
        elif c[0] == "endgroup":
            if not groups:
                continue
            groups -= 1
        res.append(c)
    return res


def run(ctx, alphabet, special, vfs):
    r = ctx.rng
    traces = []
    with Scratch():
        lib = dvidoc.Library(r)
        for f in ENV:
            lib.add(f)
        n = 3 if alphabet == "moving" else 4
        res = ctx.model_check("DVIMC", constants=dict(N=n if ctx.quick else n + 1, Alphabet=alphabet), invariants=["Sound", "Emit"], label="all short programs", heap="8g", timeout=3000)
        progs = [json.loads(p[1:]) for p in res.prints]
        k = ctx.n(1500, 20000)
        progs = r.sample(progs, k) if len(progs) > k else progs
        for p in progs:
            traces.append(short(r, lib, p))
        for i in range(ctx.n(400, 5000)):
            lib2 = dvidoc.Library(r)
            traces.append(document(r, lib2, "d%d" % i, special, vfs if vfs == 0 else r.choice([1, vfs]), r.choice([1, 2, 3])))

    def key(t, l, why):
        e = t["ev"][l - 1]
        return "dvi:%s:%s" % (why, e.get("failed", "")[:60])

    def describe(t, l, why):
        return "%s (unit %s mag %s): %s; pages %s" % (why, t["unit"], t["mag"], json.dumps(t["ev"][l - 1])[:400], t["pages"][:700])
    ctx.validate("DVITrace", traces, key=key, describe=describe, heap="12g", chunk=1000)
    ctx.sample({"pages": traces[-1]["pages"]})
    ctx.sample({"pages": traces[0]["pages"]})
