from vsa import dom, libc
from vsa.dom import sub, add
from vsa.engine import Ptr, Violation, Unsupported
from vsa.run import check


def same(eng, st, a, ins, nm):
    n, m = libc.cnum(eng, st, a[1]), libc.cnum(eng, st, a[3])
    what = eng.cstr(st, a[4]).decode()
    if n != m:
        raise Violation("spec", what, what)
    for i in range(n):
        x = libc.unum(eng, st, eng.load(st, Ptr(a[0].r, add(a[0].o, i)), 1), 8)
        y = libc.unum(eng, st, eng.load(st, Ptr(a[2].r, add(a[2].o, i)), 1), 8)
        if st.decide(("eq", dom.toF(sub(x, y)))) is not True:
            raise Violation("spec", what, what)
    eng.oblige(what)


def throw(eng, st, a, ins, nm):
    raise Violation("throw", "an exception leaves the function (%s)" % nm.lstrip("_ZSt0123456789"), "no exception")


def tolower(eng, st, a, ins, nm):
    """the "C" locale"""
    c = libc.snum(eng, st, a[0])
    eng.oblige("ctype domain")
    if not st.truth(("ge", dom.toF(add(c, 1)))) or not st.truth(("ge", dom.toF(sub(255, c)))):
        raise Violation("ctype", "%s() argument may be outside 0..255" % nm, "character domain")
    lo, hi, d = (65, 90, 32) if nm == "tolower" else (97, 122, -32)
    if st.truth(("ge", dom.toF(sub(c, lo)))) and st.truth(("ge", dom.toF(sub(hi, c)))):
        return add(c, d)
    return libc.s32(c) if isinstance(c, int) else c


THROW = {n: throw for n in ("_ZSt24__throw_out_of_range_fmtPKcz", "_ZSt20__throw_length_errorPKc", "_ZSt19__throw_logic_errorPKc",
                            "_ZSt20__throw_out_of_rangePKc", "_ZSt24__throw_invalid_argumentPKc", "__cxa_throw", "_ZSt9terminatev")}


@check("C01")
def c01(ctx):
    p = ctx.prog(harness=("cxx.cpp",), cxx=True)
    m = dict(THROW, vf_same=same)
    for w in (0, 1):
        o = ("starts", "ends")[w]
        for n, k in [(n, k) for n in range(5) for k in range(5)] + [(16, 15), (17, 16), (16, 17), (40, 33), (256, 0), (256, 1), (257, 1), (300, 44), (65536, 1), (65537, 2)]:
            ctx.add(p, "c01_ends", args=(n, k, w), models=m, cfg={"max_visits": 200000, "time": 60.0}, label="%s: %d bytes, pattern of %d" % (o, n, k))
        for n in (0, 1, 20):
            ctx.add(p, "c01_self", args=(n, w), models=m, label="%s with itself: %d bytes" % (o, n))
        ctx.add(p, "c01_any", args=(w,), models=m, cfg={"time": 60.0}, label="%s: any lengths" % o)


@check("C02")
def c02(ctx):
    p = ctx.prog(harness=("cxx.cpp",), cxx=True)
    m = dict(THROW, vf_same=same, tolower=tolower, toupper=tolower)
    for n in range(5 if ctx.thorough else 4):
        ctx.add(p, "c02_lower", args=(n,), models=m, label="lower case of %d bytes" % n)
    for n, at in ((15, 14), (16, 15), (16, 0), (17, 16), (300, 0), (300, 255), (300, 256), (300, 299)):
        ctx.add(p, "c02_long", args=(n, at), models=m, label="lower case of %d bytes, any byte at %d" % (n, at))
    q = ctx.prog(harness=("systime.c",))
    c02_systime(ctx, q)


def c02_systime(ctx, q):
    """the date texts: whatever the bytes, classification gets a value of its domain"""
    from .systimespec import MANY, PARTS
    for k in PARTS:
        ctx.add(q, "s01_parse", args=(k,), cfg=MANY, only=("ctype",), label="date text, part %d" % k)


# ---------------------------------------------------------------- C03
PATHS = ["", "/", "//", "///", "a", "a/", "a//", "/a", "/a/", "//a", "a/b", "a//b", "a/b/", "a/b//", "/a/b", "/a//b/", "//a//b//", ".", "..", "./a", "../a/",
         "a.b/c.d", "/usr/lib", "/usr/", "usr", "a b/c d", "/a/b/c/d", "0123456789abcde", "0123456789abcde/f", "/0123456789abcdef", "x" * 300 + "/" + "y" * 300,
         "x" * 5000 + "/" + "y" * 3000, "p" * 5000 + "/", "/\xe9t\xe9/\xff", "a/" * 40 + "z"]


def posix(p, which):
    """dirname and basename of XPG; the argument may be changed the way glibc does: (result, changed)"""
    b = p.rstrip("/")
    if which == "basename":
        if p == "":
            return ".", p
        if b == "":
            return "/", p
        return b[b.rfind("/") + 1:], b
    if p == "" or "/" not in b:
        return ("/" if p.startswith("/") else "."), p
    d = b[:b.rfind("/")].rstrip("/")
    if d == "":
        return "/", p
    return d, d


def lit(eng, st, s, name, const=True):
    b = s.encode("latin1")
    r = st.region(name, len(b) + 1, "caller", "zero")
    for i, c in enumerate(b):
        r.cells[i] = (1, c)
    r.cells[len(b)] = (1, 0)
    r.const = const
    return Ptr(r.id, 0)


def path(eng, st, a, ins, nm):
    return lit(eng, st, PATHS[libc.cnum(eng, st, a[0])], "path")


def part(eng, st, a, ins, nm):
    return lit(eng, st, posix(PATHS[libc.cnum(eng, st, a[0])], "basename" if libc.cnum(eng, st, a[1]) else "dirname")[0], "expected")


def libgen(eng, st, a, ins, nm):
    if libc.isnull(eng, st, a[0]):
        return lit(eng, st, ".", "static")
    b = eng.cstr(st, a[0], 9000)
    if b is None:
        return libc.M["dirname"](eng, st, a, ins, nm)
    s = b.decode("latin1")
    if nm == "basename":              # the GNU one changes nothing
        return Ptr(a[0].r, add(a[0].o, s.rfind("/") + 1))
    r, changed = posix(s, "dirname" if nm == "dirname" else "basename")
    if st.mem[a[0].r].const:
        raise Violation("constwrite", "%s may modify its constant argument" % nm)
    if changed != s:
        eng.store(st, Ptr(a[0].r, add(a[0].o, len(changed))), 1, 0)
    if r in (".", "/") and (nm == "dirname" or r == "."):
        if r == "/" and nm == "dirname" and s.startswith("/"):
            # glibc cuts the argument after its first slash
            eng.store(st, Ptr(a[0].r, add(a[0].o, 1)), 1, 0)
            return a[0]
        return lit(eng, st, r, "static")
    off = 0 if nm == "dirname" or r == "/" else changed.rfind("/") + 1
    if r == "/":
        eng.store(st, Ptr(a[0].r, add(a[0].o, 1)), 1, 0)
    return Ptr(a[0].r, add(a[0].o, off))


@check("C03")
def c03(ctx):
    p = ctx.prog(harness=("cxx.cpp",), cxx=True)
    m = dict(THROW, vf_same=same, vf_path=path, vf_part=part, dirname=libgen, basename=libgen, __xpg_basename=libgen)
    for w in (0, 1):
        for k in range(len(PATHS)):
            ctx.add(p, "c03_path", args=(k, w), models=m, cfg={"max_visits": 20000}, label="%sname of '%s'" % (("dir", "base")[w], PATHS[k][:24]))
        ctx.add(p, "c03_any", args=(w,), models=THROW, cfg={"max_paths": 3000 if ctx.thorough else 300}, label="%sname of any path" % ("dir", "base")[w])
