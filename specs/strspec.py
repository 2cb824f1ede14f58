from vsa import dom, libc
from vsa.dom import sub, add, scale
from vsa.engine import Ptr, Violation, Unsupported
from vsa.libc import i64, s32
from vsa.run import check
from .filespec import fails, is_errno, minus

EINVAL, ENOSYS, E2BIG, EPROTO = 22, 38, 7, 71


def true(st, f):
    return st.decide(("ge", dom.toF(f))) is True


def same(st, a, b):
    return st.decide(("eq", dom.toF(st.cs.norm(dom.toF(sub(a, b)))))) is True


# ---------------------------------------------------------------- U01
def neg(eng, st, a, ins, nm):
    ret = libc.snum(eng, st, a[0])
    if st.truth(("ge", dom.toF(ret))):
        return
    if libc.cnum(eng, st, a[1]):
        if not minus(st, ret, EINVAL):
            raise Violation("spec", "a buffer of less than two bytes is not refused with -EINVAL", "size refused")
        return
    fs = fails(st, but=("iconv_close",))
    if is_errno(eng, st, ret, fs) or any(e[1] == "iconv_open" for e in fs) and minus(st, ret, ENOSYS):
        eng.oblige("a failure is the negative errno of the failing call")
        return
    raise Violation("spec", "the call fails with %s, which is no failing call's error" % (ret,), "error value")


@check("U01")
def u01(ctx):
    p = ctx.prog(harness=("str.c",))
    m = {"vf_neg": neg}
    for f in (0, 1):
        ctx.add(p, "u01_sanitize", args=(f,), models=m, cfg={"max_visits": 12 if ctx.thorough else 5}, label="sanitize, %s" % ("forbidden set" if f else "no set"))
        ctx.add(p, "u01_check", args=(f,), models=m, cfg={"max_visits": 12 if ctx.thorough else 5}, label="check, %s" % ("forbidden set" if f else "no set"))


# ---------------------------------------------------------------- U02
# The text is k characters; ghost "chars" holds them.  Converting the input
# yields exactly these; converting back reads the wide buffer.
def text_in(eng, st, a, ins, nm):
    k = libc.cnum(eng, st, a[1])
    one = libc.cnum(eng, st, a[2])
    L = st.mem[a[0].r].meta["L"]
    cs = []
    c = None
    for i in range(k):
        if c is None or not one:
            c = st.fresh("char%d" % i, 1, 0x10ffff)
        cs.append(c)
    st.cs.assume(("ge", dom.toF(sub(L, k))))
    st.cs.assume(("ge", dom.toF(sub(4 * k, L))))
    st.ghost["chars"] = tuple(cs)
    st.ghost["input"] = (a[0].r, L)


def wset(eng, st, a, ins, nm):
    m = libc.cnum(eng, st, a[0])
    r = st.region("forbidden", 4 * m + 4, "caller", "uninit")
    fs = []
    for j in range(m):
        f = st.fresh("forbidden%d" % j, 1, (1 << 31) - 1)
        eng.store(st, Ptr(r.id, 4 * j), 4, f)
        fs.append(f)
    eng.store(st, Ptr(r.id, 4 * m), 4, 0)
    st.wr(r.id).const = True
    st.ghost["set"] = tuple(fs)
    return Ptr(r.id, 0)


def wide(eng, st, p, n):
    """the n wide characters at p"""
    return [libc.unum(eng, st, eng.load(st, Ptr(p.r, add(p.o, 4 * i)), 4), 32) for i in range(n)]


def wtext(eng, st, p, limit=1 << 20):
    out = []
    while len(out) < limit:
        v = wide(eng, st, Ptr(p.r, add(p.o, 4 * len(out))), 1)[0]
        if isinstance(v, int) and v == 0 or not isinstance(v, int) and st.truth(("eq", dom.toF(v))):
            return out
        out.append(v)
    raise Unsupported("wide text")


def iconv(eng, st, a, ins, nm):
    d = libc.icd(eng, st, a[0], nm)
    if libc.isnull(eng, st, a[1]) or libc.isnull(eng, st, eng.load(st, a[1], 8)):
        return 0                 # back to the initial state; nothing is written by a stateless encoding
    ip, op = eng.load(st, a[1], 8), eng.load(st, a[3], 8)
    inb, outb = libc.unum(eng, st, eng.load(st, a[2], 8)), libc.unum(eng, st, eng.load(st, a[4], 8))

    def done(iu, ou):
        eng.store(st, a[1], 8, Ptr(ip.r, add(ip.o, iu)))
        eng.store(st, a[2], 8, sub(inb, iu))
        eng.store(st, a[3], 8, Ptr(op.r, add(op.o, ou)))
        eng.store(st, a[4], 8, sub(outb, ou))
    to = d.meta["to"].split(b"//")[0]
    if to == b"WCHAR_T" and d.meta["from"] == b"UTF-8":
        r, L = st.ghost["input"]
        cs = st.ghost["chars"]
        if ip.r != r or not same(st, ip.o, 0) or not same(st, inb, L):
            raise Violation("spec", "what is converted is not the whole input", "whole input")
        if st.choose(2, nm) == 1:
            e = libc.fail(eng, st, nm)
            st.cs.assume(("ne", sub(e, E2BIG)))
            return i64(-1)
        n = len(cs)
        if not st.truth(("ge", dom.toF(sub(outb, 4 * n)))):
            done(0, 0)
            libc.fail(eng, st, nm, val=E2BIG)
            return i64(-1)
        for i, c in enumerate(cs):
            eng.store(st, Ptr(op.r, add(op.o, 4 * i)), 4, c)
        st.event("towide", n)
        done(inb, 4 * n)
        return 0
    if d.meta["from"] == b"WCHAR_T" and to == b"UTF-8":
        n = st.cs.norm(dom.toF(inb))
        n = dom.simp(n)
        if not isinstance(n, int) or n % 4:
            raise Unsupported("iconv of %r bytes" % (inb,))
        cs = wide(eng, st, ip, n // 4)
        c = st.choose(3, nm)
        if c == 2:
            e = libc.fail(eng, st, nm)
            st.cs.assume(("ne", sub(e, E2BIG)))
            return i64(-1)
        ou = st.fresh("bytes", 0, None)
        st.cs.assume(("ge", dom.toF(sub(outb, ou))))
        st.cs.assume(("ge", dom.toF(sub(n, ou))))
        iu = n
        if c == 0:
            st.cs.assume(("ge", dom.toF(sub(ou, n // 4))))
        else:
            iu = scale(st.fresh("converted", 0, max(n // 4 - 1, 0)), 4)
            if n == 0:
                raise dom.Infeasible()
            # the next character does not fit
            st.cs.assume(("ge", dom.toF(sub(3, sub(outb, ou)))))
            st.cs.assume(("ge", dom.toF(sub(iu, ou))))
        if not same(st, ou, 0):
            if st.truth(("ge", dom.toF(sub(ou, 1)))):
                eng.fill(st, op, ou, ("fresh", ("utf8", len(st.events())), (1, 255)), nm)
        st.event("toutf8", op, outb, ou, tuple(cs), c)
        done(iu, ou)
        if c == 1:
            libc.fail(eng, st, nm, val=E2BIG)
            return i64(-1)
        return 0
    raise Violation("spec", "a conversion from %r to %r" % (d.meta["from"], d.meta["to"]), "conversion")


def wcslen(eng, st, a, ins, nm):
    return len(wtext(eng, st, a[0]))


def wcschr(eng, st, a, ins, nm):
    c = libc.unum(eng, st, a[1], 32)
    cs = wtext(eng, st, a[0])
    for i, f in enumerate(cs):
        if st.truth(("eq", dom.toF(sub(c, f)))):
            return Ptr(a[0].r, add(a[0].o, 4 * i))
    if st.truth(("eq", dom.toF(c))):
        return Ptr(a[0].r, add(a[0].o, 4 * len(cs)))
    return 0


def wmemchr(eng, st, a, ins, nm):
    c = libc.unum(eng, st, a[1], 32)
    for i, f in enumerate(wide(eng, st, a[0], libc.cnum(eng, st, a[2]))):
        if st.truth(("eq", dom.toF(sub(c, f)))):
            return Ptr(a[0].r, add(a[0].o, 4 * i))
    return 0


def wcsspan(eng, st, a, ins, nm):
    fs = wtext(eng, st, a[1])
    for i, c in enumerate(wtext(eng, st, a[0])):
        hit = any(st.truth(("eq", dom.toF(sub(c, f)))) for f in fs)
        if hit == (nm != "wcsspn"):
            return Ptr(a[0].r, add(a[0].o, 4 * i)) if nm == "wcspbrk" else i
    return 0 if nm == "wcspbrk" else i64(len(wtext(eng, st, a[0])))


def forbidden(st, c, null):
    if null:
        return False
    return any(st.truth(("eq", dom.toF(sub(c, f)))) for f in st.ghost["set"])


def sanitized(eng, st, a, ins, nm):
    ret = libc.snum(eng, st, a[0])
    n = libc.unum(eng, st, a[2])
    null = libc.isnull(eng, st, a[4])
    repl = libc.unum(eng, st, a[5], 32)
    if not st.truth(("ge", dom.toF(ret))):
        fs = fails(st, but=("iconv_close",))
        if is_errno(eng, st, ret, [e for e in fs if not same(st, e[2], E2BIG)]) or any(e[1] == "iconv_open" for e in fs) and minus(st, ret, ENOSYS):
            eng.oblige("a failure is that of a conversion or of the memory")
            return
        raise Violation("spec", "a text that can be converted is refused with %s" % (ret,), "refused")
    done = [e for e in st.events() if e[0] == "toutf8"]
    if len(done) != 1 or not any(e[0] == "towide" for e in st.events()):
        raise Violation("spec", "success is reported after %d conversions" % len(done), "conversions")
    _, op, outb, ou, got, c = done[0]
    if op.r != a[1].r or not same(st, op.o, 0):
        raise Violation("spec", "the text is not written at the start of the output", "output place")
    if not same(st, ret, ou):
        raise Violation("spec", "the result is not the length of the text", "result")
    if c == 1 and not true(st, sub(add(outb, 1), n)):
        raise Violation("spec", "the text is cut though there is room left", "cut")
    want = []
    for x in st.ghost["chars"]:
        if forbidden(st, x, null):
            if st.truth(("eq", dom.toF(repl))):
                break
            want.append(repl)
        else:
            want.append(x)
    if len(want) != len(got):
        raise Violation("spec", "%d characters are converted back, the input has %d" % (len(got), len(want)), "length")
    for i, (x, y) in enumerate(zip(want, got)):
        if not same(st, x, y):
            raise Violation("spec", "character %d is not the expected one" % i, "character")
    eng.oblige("exactly the forbidden characters are replaced")


def checked(eng, st, a, ins, nm):
    ret = libc.snum(eng, st, a[0])
    mb, mw = libc.unum(eng, st, a[1]), libc.unum(eng, st, a[2])
    null = libc.isnull(eng, st, a[4])
    L = st.ghost["input"][1]
    cs = st.ghost["chars"]
    fs = fails(st, but=("iconv_close",))
    if is_errno(eng, st, ret, [e for e in fs if not same(st, e[2], E2BIG)]) or any(e[1] == "iconv_open" for e in fs) and minus(st, ret, ENOSYS):
        eng.oblige("a failure is that of a conversion or of the memory")
        return
    big = not st.truth(("eq", dom.toF(mb))) and st.truth(("ge", dom.toF(sub(L, mb)))) or \
        not st.truth(("eq", dom.toF(mw))) and st.truth(("ge", dom.toF(sub(len(cs), add(mw, 1)))))
    bad = any(forbidden(st, x, null) for x in cs)
    ok = [0] if not big and not bad else []
    if big:
        ok.append(-E2BIG)
    if bad:
        ok.append(-EPROTO)
    if not any(same(st, ret, x) for x in ok):
        raise Violation("spec", "the result is %s for a text %s and %s" % (
            ret, "over a limit" if big else "within the limits", "with a forbidden character" if bad else "without forbidden character"), "verdict")
    eng.oblige("the verdict is right")


U = {"vf_text_in": text_in, "vf_wset": wset, "iconv": iconv, "wcslen": wcslen, "wcschr": wcschr, "wmemchr": wmemchr,
     "wcspbrk": wcsspan, "wcscspn": wcsspan, "wcsspn": wcsspan, "vf_sanitized": sanitized, "vf_checked": checked}


@check("U02")
def u02(ctx):
    p = ctx.prog(harness=("str.c",))
    t = ctx.thorough
    cfg = {"max_visits": 100000, "endless": 1, "path_steps": 3000000, "max_paths": 400000}
    for k in range(5 if t else 4):
        for m in range(-1, 4 if t else 3):
            ctx.add(p, "u02_sanitize", args=(k, m, 0, -1), models=U, cfg=cfg, label="sanitize %d characters, set of %d" % (k, m))
            ctx.add(p, "u02_check", args=(k, m, 0), models=U, cfg=cfg, label="check %d characters, set of %d" % (k, m))
    for k in (255, 256, 300) + ((66000,) if t else ()):
        for m in (0, 1):
            ctx.add(p, "u02_sanitize", args=(k, m, 1, 0x5f), models=U, cfg=cfg, label="sanitize %d equal characters, set of %d" % (k, m))
            ctx.add(p, "u02_check", args=(k, m, 1), models=U, cfg=cfg, label="check %d equal characters, set of %d" % (k, m))
    # a set as long as the documented one
    ctx.add(p, "u02_sanitize", args=(1, 40, 1, 0x5f), models=U, cfg=cfg, label="sanitize, set of 40")
    ctx.add(p, "u02_check", args=(1, 40, 1), models=U, cfg=cfg, label="check, set of 40")
