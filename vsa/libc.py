"""Transfer functions of library and system calls.

Every fallible call splits the abstract state into its outcomes; a failing call
sets errno to a fresh tagged unknown in 1..4095 and appends ('fail', name, e)
to the effect log.  Successful calls append ('ok', name, ...).
"""
import re
from . import dom
from .dom import F, add, sub, scale, simp, uf, fatom
from .engine import (Ptr, FnPtr, UNDEF, Violation, Unsupported, PathEnd, Flt, Cond)

M = {}
PATTERNS = []
M["__patterns__"] = PATTERNS

EINTR, EAGAIN, ENOMEM, ENOENT = 4, 11, 12, 2


def m(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


def pat(rx):
    def d(f):
        PATTERNS.append((re.compile(rx), f))
        return f
    return d


def s32(v):
    """int result as canonical value"""
    v = simp(v)
    return v & 0xffffffff if isinstance(v, int) else v


def i64(v):
    v = simp(v)
    return v & 0xffffffffffffffff if isinstance(v, int) else v


def isnull(eng, st, p):
    if isinstance(p, (Ptr, FnPtr)):
        return False
    if p is UNDEF:
        raise Violation("uninit", "use of uninitialised pointer")
    if isinstance(p, F):
        p = simp(st.cs.norm(p))
    return isinstance(p, int) and p == 0


def set_errno(eng, st, v):
    eng.store(st, Ptr(st.globs["errno"], 0), 4, v)


def fail(eng, st, name, lo=1, hi=133, val=None):
    e = val if val is not None else st.fresh("errno_" + name, lo, hi)
    if isinstance(e, F):
        # a path is followed through a bounded number of interruptions
        n = sum(1 for x in st.events() if x[0] == "fail" and st.decide(("eq", dom.toF(sub(x[2], 4)))) is True)
        if n >= eng.cfg.get("max_eintr", 2):
            st.cs.assume(("ne", sub(e, 4)))
            eng.stats["eintr_bound"] = eng.stats.get("eintr_bound", 0) + 1
    # ... and of failures of one call site
    loc = eng.loc(st)
    if sum(1 for x in st.events() if x[0] == "fail" and x[1] == name and x[3] == loc) >= eng.cfg.get("max_site_fail", 5):
        from .engine import PathEnd
        raise PathEnd("site_fail")
    set_errno(eng, st, e)
    st.event("fail", name, e, loc)
    return e


def clobber(eng, st):
    set_errno(eng, st, st.fresh("errno_clobbered", 0, 133))


def num(eng, st, v):
    return eng.num(st, v, "argument")


def unum(eng, st, v, w=64):
    v = num(eng, st, v)
    return st.cs.as_u(v, w)


def snum(eng, st, v, w=32):
    v = num(eng, st, v)
    return st.cs.as_s(v, w)


def cnum(eng, st, v, w=32):
    """constant argument or None"""
    v = snum(eng, st, v, w)
    return v if isinstance(v, int) else None


# ---------------------------------------------------------------- errno & log
@m("__errno_location")
def _errno(eng, st, a, ins, nm):
    return Ptr(st.globs["errno"], 0)


@m("strerror")
def _strerror(eng, st, a, ins, nm):
    if num(eng, st, a[0]) is UNDEF:
        pass
    r = st.region("strerror()", 64, "static", "str", const=True, meta={"L": 10})
    return Ptr(r.id, 0)


@m("vf_ulog", "printf", "fprintf", "perror", "syslog", "puts")
def _ulog(eng, st, a, ins, nm):
    for x in a:
        if x is UNDEF:
            raise Violation("uninit", "uninitialised value passed to the logger")
    clobber(eng, st)
    return 0


@m("__assert_fail")
def _assert_fail(eng, st, a, ins, nm):
    t = eng.cstr(st, a[0])
    raise Violation("assert", "assertion '%s' can fail" % (t or b"?").decode("latin1"))


@m("abort", "exit", "_exit", "_Exit", "quick_exit", "llvm.trap")
def _abort(eng, st, a, ins, nm):
    raise Violation("ub", "the process is ended (%s: an abort, an exit, or the end of a function that has to return a value)" % nm, "abort")


@pat(r"llvm\.(lifetime|dbg|donothing|assume|experimental\.noalias|invariant|var\.annotation|annotation|stacksave|stackrestore).*")
def _nop(eng, st, a, ins, nm):
    return None


@pat(r"llvm\.threadlocal\.address.*")
def _tls(eng, st, a, ins, nm):
    return a[0]


@pat(r"llvm\.expect.*")
def _expect(eng, st, a, ins, nm):
    return a[0]


@pat(r"llvm\.(umin|umax|smin|smax)\.i(\d+)")
def _minmax(eng, st, a, ins, nm):
    p = nm.split(".")
    w = int(p[2][1:])
    x, y = num(eng, st, a[0]), num(eng, st, a[1])
    v = st.cs.as_s if p[1][0] == "s" else st.cs.as_u
    x, y = v(x, w), v(y, w)
    ge = eng.istrue(st, eng.cmpf(st, "sge", x, y))
    r = (x if ge else y) if p[1].endswith("max") else (y if ge else x)
    return eng.wrapi(r, w)


@pat(r"llvm\.[us](add|sub|mul)\.with\.overflow\.i(\d+)")
def _ovf(eng, st, a, ins, nm):
    mm = re.match(r"llvm\.([us])(add|sub|mul)\.with\.overflow\.i(\d+)", nm)
    w = int(mm.group(3))
    v = st.cs.as_s if mm.group(1) == "s" else st.cs.as_u
    x, y = v(num(eng, st, a[0]), w), v(num(eng, st, a[1]), w)
    if mm.group(2) == "add":
        r = add(x, y)
    elif mm.group(2) == "sub":
        r = sub(x, y)
    else:
        if isinstance(x, F) and isinstance(y, F):
            r = uf("mul", tuple(sorted((x, y), key=repr)), None, None, lambda p, q: p * q)
        else:
            r = scale(x, y) if isinstance(x, F) else scale(y, x) if isinstance(y, F) else x * y
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if mm.group(1) == "s" else (0, (1 << w) - 1)
    r = simp(r)
    if isinstance(r, int):
        return (r & ((1 << w) - 1), int(not lo <= r <= hi))
    if not st.truth(("ge", sub(r, lo))) or st.truth(("ge", sub(r, hi + 1))):
        return (r, 1)
    return (r, 0)


@pat(r"llvm\.(bswap|ctlz|cttz|ctpop|fshl|fshr|abs|bitreverse)\..*")
def _bits(eng, st, a, ins, nm):
    p = nm.split(".")
    w = int(p[2][1:])
    x = st.cs.as_u(num(eng, st, a[0]), w)
    if p[1] == "bswap":
        r = 0
        for i in range(w // 8):
            r = add(r, scale(st.cs.field(x, 8 * i, 8), 1 << (w - 8 - 8 * i)))
        return eng.wrapi(r, w)
    if p[1] == "ctlz":
        if isinstance(x, int):
            return w - x.bit_length()
        lo, hi = st.cs.bounds(x)
        # partition on the position of the top bit
        for k in range(hi.bit_length(), -1, -1):
            if k == 0:
                return w
            if st.truth(("ge", sub(x, 1 << (k - 1)))):
                return w - k
    if p[1] == "abs":
        s = st.cs.as_s(x, w)
        if isinstance(s, int):
            return abs(s) & ((1 << w) - 1)
        return eng.wrapi(s if st.truth(("ge", s)) else scale(s, -1), w)
    if p[1] in ("fshl", "fshr"):
        y = st.cs.as_u(num(eng, st, a[1]), w)
        k = cnum(eng, st, a[2], w)
        if k is None:
            raise Unsupported(nm)
        k %= w
        if p[1] == "fshr":
            k = w - k
        if k in (0, w):
            return x if p[1] == "fshl" else y
        hi = eng.binop(st, "shl", x, k, w, ins)
        lo = eng.binop(st, "lshr", y, w - k, w, ins)
        return eng.binop(st, "or", hi, lo, w, ins)
    raise Unsupported(nm)


# ---------------------------------------------------------------- memory
@m("memcpy", "memmove", "__memcpy_chk", "__memmove_chk")
def _memcpy(eng, st, a, ins, nm):
    n = unum(eng, st, a[2])
    if nm.endswith("memcpy") or nm == "memcpy":
        no_overlap(eng, st, a[0], a[1], n, nm)
    eng.copy(st, a[0], a[1], n, "memcpy" if "cpy" in nm else "memmove")
    return a[0]


def no_overlap(eng, st, d, s, n, nm):
    if isinstance(d, Ptr) and isinstance(s, Ptr) and d.r == s.r:
        df = simp(st.cs.norm(sub(d.o, s.o)))
        if isinstance(n, int) and n == 0:
            return
        if isinstance(df, int) and df == 0:
            return
        ok1 = st.decide(("ge", dom.toF(sub(df, n))))
        ok2 = st.decide(("ge", dom.toF(sub(scale(df, -1), n))))
        if ok1 is False and ok2 is False:
            raise Violation("overlap", "memcpy on overlapping memory of '%s'" % st.mem[d.r].name)


@pat(r"llvm\.memcpy\..*")
def _lmemcpy(eng, st, a, ins, nm):
    eng.copy(st, a[0], a[1], unum(eng, st, a[2]), "memcpy")


@pat(r"llvm\.memmove\..*")
def _lmemmove(eng, st, a, ins, nm):
    eng.copy(st, a[0], a[1], unum(eng, st, a[2]), "memmove")


def memset(eng, st, p, b, n, what="memset"):
    b = num(eng, st, b)
    b = st.cs.as_u(b, 8)
    eng.fill(st, p, n, ("set", b), what)


@pat(r"llvm\.memset\..*")
def _lmemset(eng, st, a, ins, nm):
    memset(eng, st, a[0], a[1], unum(eng, st, a[2]))


@m("memset", "explicit_bzero", "bzero")
def _memset(eng, st, a, ins, nm):
    if nm == "memset":
        memset(eng, st, a[0], a[1], unum(eng, st, a[2]))
        return a[0]
    memset(eng, st, a[0], 0, unum(eng, st, a[1]))


def alloc(eng, st, size, default, what):
    if st.choose(2, what) == 1:
        fail(eng, st, what, val=ENOMEM)
        return 0
    r = st.region(what + "@" + eng.loc(st), size, "heap", default, site=eng.loc(st))
    st.event("alloc", r.id, size)
    return Ptr(r.id, 0)


@m("malloc")
def _malloc(eng, st, a, ins, nm):
    return alloc(eng, st, unum(eng, st, a[0]), "uninit", "malloc")


@m("calloc")
def _calloc(eng, st, a, ins, nm):
    n, s = unum(eng, st, a[0]), unum(eng, st, a[1])
    if isinstance(s, F) and isinstance(n, F):
        t = eng.mul(st, n, s, 64, None)
    else:
        t = scale(n, s) if isinstance(n, F) else scale(s, n) if isinstance(s, F) else n * s
    if isinstance(t, F):
        if not st.truth(("ge", sub((1 << 63) - 1, t))):
            fail(eng, st, "calloc", val=ENOMEM)
            return 0
    return alloc(eng, st, simp(t), "zero", "calloc")


@m("realloc")
def _realloc(eng, st, a, ins, nm):
    n = unum(eng, st, a[1])
    if isnull(eng, st, a[0]):
        return alloc(eng, st, n, "uninit", "realloc")
    old = st.mem.get(a[0].r)
    if old is None or not old.alive:
        raise Violation("uaf", "realloc of freed memory")
    p = alloc(eng, st, n, "uninit", "realloc")
    if p == 0:
        return 0
    if isinstance(n, int) and isinstance(old.size, int):
        eng.copy(st, p, a[0], min(n, old.size), "realloc")
    elif st.truth(("ge", dom.toF(sub(n, old.size)))):
        eng.copy(st, p, a[0], old.size, "realloc")
    else:
        eng.copy(st, p, a[0], n, "realloc")
    st.wr(old.id).alive = False
    return p


@m("free", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm")
def _free(eng, st, a, ins, nm):
    p = a[0]
    if isnull(eng, st, p):
        return None
    if not isinstance(p, Ptr):
        raise Violation("badfree", "free of invalid pointer %r" % (p,))
    r = st.mem.get(p.r)
    if r is None:
        raise Violation("badfree", "free of dead object")
    if not r.alive:
        raise Violation("doublefree", "double free of '%s'" % r.name)
    if r.kind != "heap":
        raise Violation("badfree", "free of non-heap object '%s'" % r.name)
    o = simp(st.cs.norm(p.o)) if isinstance(p.o, F) else p.o
    if not (isinstance(o, int) and o == 0):
        if isinstance(o, int) or st.decide(("eq", o)) is not True:
            raise Violation("badfree", "free of interior pointer of '%s'" % r.name)
    st.wr(r.id).alive = False
    st.event("free", r.id)
    return None


# ---------------------------------------------------------------- strings
def segs_at(eng, st, p):
    """string as a tuple of segments, or None.
    segment: ('lit', bytes) | ('str', key, L) | ('num', key, lenform)"""
    if not isinstance(p, Ptr):
        eng.check(st, p, 1, "string read")
    r = st.mem.get(p.r)
    if r is None or not r.alive:
        eng.check(st, p, 1, "string read")
    return segs_reg(eng, st, r, p.o)


def segs_reg(eng, st, r, o):
    o = simp(st.cs.norm(o)) if isinstance(o, F) else o
    for e in reversed(r.log):
        if e[0] == "cp":
            d = simp(st.cs.norm(sub(o, e[1])))
            if isinstance(d, int) and d == 0 or (isinstance(d, F) and st.decide(("eq", d)) is True):
                # the copy must cover the terminator
                s = segs_reg(eng, st, e[3], e[4])
                if s is None:
                    return None
                L = segs_len(s)
                if st.decide(("ge", dom.toF(sub(sub(e[2], L), 1)))) is True:
                    return s
                return None
            if isinstance(d, int) and d > 0:
                # written entirely before this string?
                if st.decide(("ge", dom.toF(sub(d, e[2])))) is True:
                    continue
                return segs_reg(eng, st, e[3], add(e[4], d))
            if isinstance(d, int) and d < 0:
                # written entirely after this string?
                r2 = r.clone()
                r2.log = r.log[:r.log.index(e)]
                s = segs_reg(eng, st, r2, o)
                if s is not None and st.decide(("ge", dom.toF(sub(sub(-d, segs_len(s)), 1)))) is True:
                    return s
                return None
            return None
        if e[0] in ("w", "set", "fresh"):
            d = simp(st.cs.norm(sub(e[1], o)))
            if isinstance(d, int) and d > 0:
                # written entirely after this string?
                r2 = r.clone()
                r2.log = r.log[:r.log.index(e)]
                s = segs_reg(eng, st, r2, o)
                if s is not None and st.decide(("ge", dom.toF(sub(sub(d, segs_len(s)), 1)))) is True:
                    return s
            if isinstance(d, F) or d >= 0:
                # a later write inside the string: only a terminator at a segment boundary is understood
                if e[0] == "w" and e[2] == 1 and e[3] == 0:
                    r2 = r.clone()
                    r2.log = r.log[:r.log.index(e)]
                    s = segs_reg(eng, st, r2, o)
                    if s is None:
                        return None
                    return segs_cut(eng, st, s, d)
                return None
    if r.meta and "segs" in r.meta and isinstance(o, int) and o == 0:
        return r.meta["segs"]
    if r.default == "str" and not r.cells:
        L = sub(r.meta["L"], o)
        return (("str", (r.id, o if isinstance(o, int) else repr(o)), L),)
    if isinstance(o, int):
        out = []
        for i in range(4096):
            if isinstance(r.size, int) and o + i >= r.size:
                return None
            b = eng.read_cells(st, r, o + i, 1) if not r.log else eng.read(st, r, o + i, 1)
            if isinstance(b, F):
                b = simp(st.cs.norm(b))
            if not isinstance(b, int):
                return None
            if b == 0:
                return (("lit", bytes(out)),) if out else ()
            out.append(b)
    return None


def segs_cut(eng, st, segs, at):
    out = []
    pos = 0
    for s in segs:
        if st.decide(("eq", dom.toF(sub(at, pos)))) is True:
            return tuple(out)
        L = seg_len(s)
        end = add(pos, L)
        if s[0] == "lit" and isinstance(at, int) and isinstance(pos, int) and pos < at < end:
            out.append(("lit", s[1][:at - pos]))
            return tuple(out)
        if st.decide(("ge", dom.toF(sub(sub(end, at), 1)))) is True:
            d = simp(st.cs.norm(sub(at, pos)))
            if s[0] == "str":
                out.append(("cut", s[1], d))
                return tuple(out)
            return None
        out.append(s)
        pos = end
    return tuple(out)


def seg_len(s):
    return len(s[1]) if s[0] == "lit" else s[2]


def segs_len(segs):
    t = 0
    for s in segs:
        t = add(t, seg_len(s))
    return t


def segs_region(eng, st, segs, name="string"):
    """virtual constant region holding segs + NUL"""
    L = segs_len(segs)
    snaps = {}

    def dflt(eng, st, r, off):
        pos = 0
        for s in segs:
            n = seg_len(s)
            e = add(pos, n)
            if st.truth(("ge", dom.toF(sub(sub(e, off), 1)))):
                d = simp(st.cs.norm(sub(off, pos)))
                if s[0] == "lit":
                    if isinstance(d, int):
                        return s[1][d]
                    for i in range(n):
                        if i == n - 1 or st.truth(("eq", sub(d, i))):
                            return s[1][i]
                return uf("chr", (s[1], d), 48 if s[0] == "num" else 1, 57 if s[0] == "num" else 255, None,
                          name="chr(%s)" % (s[1],))
            pos = e
        return 0
    r = st.region(name, add(L, 1), "virtual", dflt, const=True, meta={"segs": segs})
    return r


def strlen(eng, st, p, what="strlen"):
    r, o = eng.check(st, p, 1, what)
    s = segs_at(eng, st, p)
    if s is not None:
        return segs_len(s)
    # byte-wise scan of a small buffer
    for i in range(70000):
        b = eng.load(st, Ptr(p.r, add(p.o, i)), 1, what)
        if i >= 4096 and not isinstance(b, int) and b is not UNDEF:
            break
        if b is UNDEF:
            raise Violation("uninit", "%s scans uninitialised bytes of '%s'" % (what, r.name))
        if isinstance(b, int):
            if b == 0:
                return i
            continue
        if st.truth(("eq", b)):
            return i
    raise Unsupported("strlen of long symbolic buffer")


@m("strlen")
def _strlen(eng, st, a, ins, nm):
    return strlen(eng, st, a[0])


@m("strnlen")
def _strnlen(eng, st, a, ins, nm):
    n = unum(eng, st, a[1])
    L = strlen(eng, st, a[0], "strnlen")
    if st.truth(("ge", dom.toF(sub(n, L)))):
        return L
    return n


def bytes_cmp(eng, st, p, q, n, stop_nul, what):
    """0 / +-1 ; n int or None"""
    i = 0
    while n is None or i < n:
        x = eng.load(st, Ptr(p.r, add(p.o, i)), 1, what)
        y = eng.load(st, Ptr(q.r, add(q.o, i)), 1, what)
        if x is UNDEF or y is UNDEF:
            raise Violation("uninit", what + " reads uninitialised bytes")
        x, y = num(eng, st, x), num(eng, st, y)
        d = sub(x, y)
        if isinstance(d, F):
            if not st.truth(("eq", d)):
                return 1 if st.truth(("ge", d)) else -1
        elif d:
            return 1 if d > 0 else -1
        if stop_nul:
            z = y if isinstance(y, int) else x
            if isinstance(z, int):
                if z == 0:
                    return 0
            elif st.truth(("eq", z)):
                return 0
        i += 1
        if i > 512:
            raise Unsupported(what + " of long symbolic strings")
    return 0


@m("strcmp")
def _strcmp(eng, st, a, ins, nm):
    for p in a[:2]:
        eng.check(st, p, 1, "strcmp")
    x, y = segs_at(eng, st, a[0]), segs_at(eng, st, a[1])
    if x is not None and x == y:
        return 0
    return s32(bytes_cmp(eng, st, a[0], a[1], None, True, "strcmp"))


@m("strncmp")
def _strncmp(eng, st, a, ins, nm):
    n = unum(eng, st, a[2])
    for p in a[:2]:
        if not (isinstance(n, int) and n == 0):
            eng.check(st, p, 1, "strncmp")
    if eng.cfg.get("abstract_strncmp") and isinstance(n, int):
        # reads are still checked; the outcome is not tracked byte by byte
        for i in range(n):
            for p in a[:2]:
                b = eng.load(st, Ptr(p.r, add(p.o, i)), 1, "strncmp")
                if b is UNDEF:
                    raise Violation("uninit", "strncmp reads uninitialised bytes")
        return s32((0, 1)[st.choose(2, "strncmp")])
    if not isinstance(n, int):
        raise Unsupported("strncmp symbolic length")
    return s32(bytes_cmp(eng, st, a[0], a[1], n, True, "strncmp"))


@m("memcmp")
def _memcmp(eng, st, a, ins, nm):
    n = unum(eng, st, a[2])
    if not isinstance(n, int):
        if st.truth(("eq", n)):
            return 0
        eng.check(st, a[0], n, "memcmp")
        eng.check(st, a[1], n, "memcmp")
        r0, r1 = st.mem[a[0].r], st.mem[a[1].r]
        st.event("memcmp", a[0], a[1], n)
        v = uf("memcmp", (a[0].r, repr(a[0].o), len(r0.log), a[1].r, repr(a[1].o), len(r1.log), n), -1, 1, None)
        return v
    return s32(bytes_cmp(eng, st, a[0], a[1], n, False, "memcmp"))


@m("memchr", "memrchr")
def _memchr(eng, st, a, ins, nm):
    n = unum(eng, st, a[2])
    c = unum(eng, st, a[1], 8)
    if not isinstance(n, int):
        if st.truth(("eq", n)):
            return 0
        eng.check(st, a[0], n, nm)
        if st.choose(2, nm) == 1:
            return 0
        k = st.fresh(nm, 0, None)
        st.cs.assume(("ge", sub(sub(n, k), 1)))
        return Ptr(a[0].r, add(a[0].o, k))
    for i in (range(n) if nm == "memchr" else range(n - 1, -1, -1)):
        b = unum(eng, st, eng.load(st, Ptr(a[0].r, add(a[0].o, i)), 1, nm), 8)
        d = sub(b, c)
        if isinstance(d, int) and d == 0 or not isinstance(d, int) and st.truth(("eq", dom.toF(d))):
            return Ptr(a[0].r, add(a[0].o, i))
    return 0


@m("strchr", "strrchr")
def _strchr(eng, st, a, ins, nm):
    c = unum(eng, st, a[1], 8)
    eng.check(st, a[0], 1, nm)
    segs = segs_at(eng, st, a[0])
    L = strlen(eng, st, a[0], nm)
    if isinstance(c, int) and c == 0:
        return Ptr(a[0].r, add(a[0].o, L))
    lits = segs is not None and all(s[0] == "lit" for s in segs)
    if lits:
        b = b"".join(s[1] for s in segs)
        i = b.find(bytes([c])) if nm == "strchr" else b.rfind(bytes([c]))
        return 0 if i < 0 else Ptr(a[0].r, add(a[0].o, i))
    if st.choose(2, nm) == 1:
        return 0
    if not isinstance(L, F) and L == 0:
        raise dom.Infeasible()
    if isinstance(L, F) and not st.truth(("ge", sub(L, 1))):
        raise dom.Infeasible()
    k = st.fresh(nm, 0, None)
    st.cs.assume(("ge", sub(sub(L, k), 1)))
    st.event(nm, a[0], c, k)
    return Ptr(a[0].r, add(a[0].o, k))


@m("strdup", "strndup")
def _strdup(eng, st, a, ins, nm):
    L = strlen(eng, st, a[0], nm)
    if nm == "strndup":
        n = unum(eng, st, a[1])
        if not st.truth(("ge", dom.toF(sub(n, L)))):
            L = n
    if st.choose(2, nm) == 1:
        fail(eng, st, nm, val=ENOMEM)
        return 0
    r = st.region(nm + "@" + eng.loc(st), add(L, 1), "heap", "uninit", site=eng.loc(st))
    st.event("alloc", r.id, add(L, 1))
    eng.copy(st, Ptr(r.id, 0), a[0], L, nm)
    if nm == "strndup":
        eng.store(st, Ptr(r.id, L), 1, 0)
    else:
        eng.copy(st, Ptr(r.id, 0), a[0], add(L, 1), nm)
    return Ptr(r.id, 0)


@m("strcpy", "strcat", "stpcpy")
def _strcpy(eng, st, a, ins, nm):
    L = strlen(eng, st, a[1], nm)
    d = a[0]
    if nm == "strcat":
        d = Ptr(a[0].r, add(a[0].o, strlen(eng, st, a[0], nm)))
    eng.copy(st, d, a[1], add(L, 1), nm)
    return a[0] if nm != "stpcpy" else Ptr(d.r, add(d.o, L))


@m("strncpy")
def _strncpy(eng, st, a, ins, nm):
    n = unum(eng, st, a[2])
    L = strlen(eng, st, a[1], nm)
    if st.truth(("ge", dom.toF(sub(L, n)))):
        eng.copy(st, a[0], a[1], n, nm)
    else:
        eng.copy(st, a[0], a[1], L, nm)
        eng.fill(st, Ptr(a[0].r, add(a[0].o, L)), sub(n, L), ("set", 0), nm)
    return a[0]


FMT = re.compile(rb"%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j|t|q|L)?([diouxXcspnm%])")


def ndig(v):
    return len(str(abs(v)))


def exact_fmt(eng, st, dst, n, f, va, nm):
    """formatting with every byte of the text tracked (bounded numbers and known strings only)"""
    out = []
    i = 0
    for mt in FMT.finditer(f):
        out += list(f[i:mt.start()])
        i = mt.end()
        flags, wd, prec, ln, cv = mt.groups()
        if cv == b"%":
            out.append(37)
            continue
        if wd == b"*" or prec is not None or cv not in b"sdiuc":
            raise Unsupported("exact formatting of %r" % mt.group(0))
        if not va:
            raise Violation("format", "%s: missing argument for %r" % (nm, mt.group(0)))
        v = va.pop(0)
        if v is UNDEF:
            raise Violation("uninit", "uninitialised value formatted by " + nm)
        w = int(wd) if wd else 0
        if cv == b"s":
            t = eng.cstr(st, v)
            if t is None:
                raise Unsupported("exact formatting of an unknown string")
            t = list(t)
        elif cv == b"c":
            t = [unum(eng, st, v, 8)]
        else:
            x = num(eng, st, v)
            bits = 64 if ln in (b"l", b"ll", b"z", b"j", b"t", b"q") else 32
            x = st.cs.as_s(x, bits) if cv in b"di" else st.cs.as_u(x, bits)
            neg = False
            if isinstance(x, F):
                if cv in b"di" and not st.truth(("ge", x)):
                    neg, x = True, scale(x, -1)
            elif x < 0:
                neg, x = True, -x
            k = 1
            while not (x < 10 ** k if isinstance(x, int) else st.truth(("ge", dom.toF(sub(10 ** k - 1, x))))):
                k += 1
            q = [x if j == 0 else x // 10 ** j if isinstance(x, int) else st.cs.div(x, 10 ** j) for j in range(k + 1)]
            t = [simp(st.cs.norm(dom.toF(add(48, sub(q[j], scale(q[j + 1], 10)))))) if isinstance(x, F)
                 else 48 + q[j] - 10 * q[j + 1] for j in range(k - 1, -1, -1)]
            if isinstance(x, F):
                t[0] = simp(st.cs.norm(dom.toF(add(48, q[k - 1])))) if k > 0 else t[0]
            if b"0" in flags:
                t = [48] * (w - len(t) - neg) + t
            if neg:
                t = [45] + t
        if len(t) < w:
            pad = [32] * (w - len(t))
            t = t + pad if b"-" in flags else pad + t
        out += t
    out += list(f[i:])
    total = len(out)
    st.event("snprintf", f, (), dst, n, total, eng.loc(st))
    if isinstance(n, int):
        k = min(total, n - 1)
    elif st.truth(("ge", dom.toF(sub(n, total + 1)))):
        k = total
    else:
        k = total - 1
        while k >= 0 and not st.truth(("eq", dom.toF(sub(n, k + 1)))):
            k -= 1
    if k >= 0:
        eng.check(st, dst, k + 1, nm + " destination write")
        for j in range(k):
            eng.store(st, Ptr(dst.r, add(dst.o, j)), 1, out[j], nm)
        eng.store(st, Ptr(dst.r, add(dst.o, k)), 1, 0, nm)
    return s32(total)


@m("snprintf", "sprintf", "__snprintf_chk")
def _snprintf(eng, st, a, ins, nm):
    if nm == "sprintf":
        dst, n, fmt, va = a[0], None, a[1], a[2:]
    elif nm == "snprintf":
        dst, n, fmt, va = a[0], unum(eng, st, a[1]), a[2], a[3:]
    else:
        dst, n, fmt, va = a[0], unum(eng, st, a[1]), a[4], a[5:]
    f = eng.cstr(st, fmt)
    if f is None:
        raise Unsupported("snprintf with symbolic format")
    if eng.cfg.get("exact_fmt") and n is not None:
        return exact_fmt(eng, st, dst, n, f, list(va), nm)
    segs = []
    vals = []
    i = 0
    va = list(va)

    def lit(b):
        if b:
            if segs and segs[-1][0] == "lit":
                segs[-1] = ("lit", segs[-1][1] + b)
            else:
                segs.append(("lit", b))
    for mt in FMT.finditer(f):
        lit(f[i:mt.start()])
        i = mt.end()
        flags, wd, prec, ln, cv = mt.groups()
        if cv == b"%":
            lit(b"%")
            continue
        if wd == b"*" or prec == b"*" or cv in b"nm":
            raise Unsupported("snprintf conversion %r" % mt.group(0))
        if not va:
            raise Violation("format", "snprintf: missing argument for %r" % mt.group(0))
        v = va.pop(0)
        if v is UNDEF:
            raise Violation("uninit", "uninitialised value formatted by snprintf")
        if cv == b"s":
            if isnull(eng, st, v):
                raise Violation("nullderef", "snprintf %s of NULL")
            eng.check(st, v, 1, "snprintf %s")
            s = segs_at(eng, st, v)
            if s is None:
                L = strlen(eng, st, v, "snprintf %s")
                s = (("str", ("bytes", v.r, repr(v.o), len(st.mem[v.r].log)), L),)
            if prec is not None:
                raise Unsupported("snprintf precision on %s")
            vals.append(("s", s, v))
            for x in s:
                if x[0] == "lit":
                    lit(x[1])
                else:
                    segs.append(x)
        elif cv == b"c":
            c = unum(eng, st, v, 8)
            vals.append(("c", c))
            if isinstance(c, int):
                lit(bytes([c]))
            else:
                segs.append(("str", ("c", repr(c)), 1))
        elif cv == b"p":
            segs.append(("str", ("p", repr(v)), st.fresh("len_p", 1, 20)))
        else:
            w = 64 if ln in (b"l", b"ll", b"z", b"j", b"t", b"q") else 32
            x = num(eng, st, v)
            x = st.cs.as_s(x, w) if cv in b"di" else st.cs.as_u(x, w)
            minw = int(wd) if wd else 1
            vals.append(("n", x, minw, b"0" in flags, cv))
            if isinstance(x, int):
                t = ("%" + flags.decode() + (wd or b"").decode() + (b"." + prec if prec else b"").decode()
                     + cv.decode().replace("u", "d")) % x
                lit(t.encode())
            else:
                lo, hi = st.cs.bounds(x)
                if cv in b"diu":
                    mx = max(ndig(lo) + (lo < 0), ndig(hi) + (hi < 0))
                    mn = 1 if lo <= 0 <= hi else min(ndig(lo), ndig(hi))
                else:
                    mx = 22
                    mn = 1
                if prec:
                    mn, mx = max(mn, int(prec)), max(mx, int(prec))
                mn, mx = max(mn, minw), max(mx, minw)
                L = mn if mn == mx else st.fresh("len_n", mn, mx)
                segs.append(("num", (repr(x), minw), L))
    lit(f[i:])
    segs = tuple(segs)
    total = segs_len(segs)
    st.event("snprintf", f, tuple(vals), dst, n, total, eng.loc(st))
    if n is None or st.truth(("ge", dom.toF(sub(sub(n, total), 1)))):
        v = segs_region(eng, st, segs, "formatted")
        eng.copy(st, dst, Ptr(v.id, 0), add(total, 1), nm)
    elif isinstance(n, int) and n == 0 or (isinstance(n, F) and st.truth(("eq", n))):
        pass
    else:
        v = segs_region(eng, st, segs, "formatted")
        k = sub(n, 1)
        if not (isinstance(k, int) and k == 0):
            eng.copy(st, dst, Ptr(v.id, 0), k, nm)
        eng.store(st, Ptr(dst.r, add(dst.o, k)), 1, 0, nm)
    # the count must fit an int
    lo, hi = st.cs.bounds(total) if isinstance(total, F) else (total, total)
    if hi is not None and hi <= 0x7fffffff:
        return s32(total)
    if st.truth(("ge", dom.toF(sub(0x7fffffff, total)))):
        return s32(total)
    fail(eng, st, nm, val=75)
    return s32(-1)


# ---------------------------------------------------------------- ctype, numbers
CT = ("isdigit", "isalpha", "isalnum", "isspace", "isupper", "islower", "isxdigit", "ispunct", "isprint",
      "iscntrl", "isgraph", "isblank")


@m(*CT)
def _ctype(eng, st, a, ins, nm):
    c = snum(eng, st, a[0])
    eng.oblige("ctype domain")
    if isinstance(c, int):
        if c < -1 or c > 255:
            raise Violation("ctype", "%s() argument outside 0..255" % nm)
    else:
        if not st.truth(("ge", add(c, 1))) or not st.truth(("ge", sub(255, c))):
            raise Violation("ctype", "%s() argument may be outside 0..255" % nm)
    st.event("ctype", nm, c, eng.loc(st))
    if nm == "isdigit":
        if isinstance(c, int):
            return int(48 <= c <= 57)
        if st.truth(("ge", sub(c, 48))) and st.truth(("ge", sub(57, c))):
            return 1
        return 0
    if isinstance(c, int) and c >= 0:
        import string as _s
        ch = chr(c)
        return int({"isalpha": ch.isalpha(), "isalnum": ch.isalnum(), "isspace": ch in " \t\n\v\f\r",
                    "isupper": "A" <= ch <= "Z", "islower": "a" <= ch <= "z", "isxdigit": ch in _s.hexdigits,
                    "ispunct": ch in _s.punctuation, "isprint": 32 <= c < 127, "iscntrl": c < 32 or c == 127,
                    "isgraph": 32 < c < 127, "isblank": ch in " \t"}[nm] and c < 128)
    v = uf("ctype_" + nm, (c,), 0, 1, None)
    return v


@m("tolower", "toupper")
def _tolower(eng, st, a, ins, nm):
    c = snum(eng, st, a[0])
    eng.oblige("ctype domain")
    if isinstance(c, int):
        if c < -1 or c > 255:
            raise Violation("ctype", "%s() argument outside 0..255" % nm)
        return s32(ord(getattr(chr(c), nm[2:])())) if 0 <= c < 128 else s32(c)
    if not st.truth(("ge", add(c, 1))) or not st.truth(("ge", sub(255, c))):
        raise Violation("ctype", "%s() argument may be outside 0..255" % nm)
    st.event("ctype", nm, c, eng.loc(st))
    return uf(nm, (c,), -1, 255, None, name="%s(%s)" % (nm, dom.short(c)))


def free_char(st, b, first):
    """is b an input byte that may still be any digit (or the minus before them) or not belong to a number?"""
    b = simp(st.cs.norm(b)) if isinstance(b, F) else b
    if not isinstance(b, F) or len(b.t) != 1 or b.c != 0 or b.t[0][1] != 1:
        return False
    return all(st.decide(("eq", sub(b, c))) is not False for c in range(45 if first else 47, 58) if c != 46)


def summable(st, bs):
    """a number read from bytes nothing is known about may be any number of that many characters"""
    return len(bs) > 0 and all(free_char(st, b, i == 0) for i, b in enumerate(bs)) and len(set(map(repr, bs))) == len(bs)


def exact_num(st, bs):
    def inr(b, lo, hi):
        if isinstance(b, int):
            return lo <= b <= hi
        return st.truth(("ge", sub(b, lo))) and st.truth(("ge", sub(hi, b)))

    def iseq(b, c):
        return b == c if isinstance(b, int) else st.truth(("eq", sub(b, c)))
    i = 0
    while i < len(bs) and not inr(bs[i], 48, 57) and (iseq(bs[i], 32) or inr(bs[i], 9, 13)):
        i += 1
    neg = False
    if i < len(bs) and not inr(bs[i], 48, 57) and (iseq(bs[i], 45) or iseq(bs[i], 43)):
        neg = iseq(bs[i], 45)
        i += 1
    j, v = i, 0
    while j < len(bs) and inr(bs[j], 48, 57):
        v = add(scale(v, 10), sub(bs[j], 48))
        j += 1
    if j == i:
        return 0, 0
    if isinstance(v, F):
        v = simp(st.cs.norm(v))
    return (scale(v, -1) if neg else v), j


@m("strtol", "strtoll", "strtoul", "strtoull", "__isoc23_strtol", "__isoc23_strtoll", "__isoc23_strtoul", "__isoc23_strtoull")
def _strtol(eng, st, a, ins, nm):
    L = strlen(eng, st, a[0], nm)
    uns = "ul" in nm
    if isinstance(L, int):
        hi = 10 ** L - 1 if L < 19 else (1 << 63) - 1
        lo = -(10 ** (L - 1) - 1) if 1 <= L < 19 else 0 if L < 1 else -(1 << 63)
    else:
        l0, h0 = st.cs.bounds(L)
        if h0 is not None and h0 < 19:
            hi, lo = 10 ** h0 - 1, -(10 ** max(h0 - 1, 0) - 1)
        else:
            lo, hi = -(1 << 63), (1 << 63) - 1
    bs = None
    if isinstance(L, int) and L <= 8:
        bs = tuple(eng.load(st, Ptr(a[0].r, add(a[0].o, i)), 1) for i in range(L))
    key = (nm, bs if bs is not None else (a[0].r, repr(a[0].o), len(st.mem[a[0].r].log)))
    if bs is not None and (eng.cfg.get("exact_num") or not summable(st, bs)):
        v, end = exact_num(st, bs)
        if not isnull(eng, st, a[1]):
            eng.store(st, a[1], 8, Ptr(a[0].r, add(a[0].o, end)), nm)
        st.event("strtol", a[0], v, end == L)
        return i64(v)
    n = 3 if hi == (1 << 63) - 1 else 2
    k = st.choose(n, nm)
    if bs is not None:
        st.ghost["consumed"] = st.ghost.get("consumed", ()) + tuple((b, i == 0) for i, b in enumerate(bs))
    v = uf("strtol", key, lo, hi, None, name="%s()" % nm)
    if k == 0:
        end = L                  # the whole text was a number
        if isinstance(L, F):
            st.cs.assume(("ge", sub(L, 1)))
    elif k == 1:
        end = st.fresh("strtol_end", 0, None)
        st.cs.assume(("ge", sub(sub(L, end), 1)))
    else:
        end = L
        fail(eng, st, nm, val=34)
        v = (1 << 63) - 1
    if not isnull(eng, st, a[1]):
        eng.store(st, a[1], 8, Ptr(a[0].r, add(a[0].o, end)), nm)
    st.event("strtol", a[0], v, k == 0)
    return i64(v)


# ---------------------------------------------------------------- clocks
def fresh_ts(eng, st, p, name, usec=False):
    s = st.fresh(name + ".sec", 0, 1 << 40)
    n = st.fresh(name + ".frac", 0, 999999 if usec else 999999999)
    eng.store(st, p, 8, s, name)
    eng.store(st, Ptr(p.r, add(p.o, 8)), 8, n, name)
    return s, n


@m("clock_gettime")
def _clock(eng, st, a, ins, nm):
    cid = cnum(eng, st, a[0])
    if st.choose(2, "clock_gettime") == 1:
        st.event("clockfail", fail(eng, st, nm))
        return s32(-1)
    s, n = fresh_ts(eng, st, a[1], "clock%s" % cid)
    st.event("now", cid, s, n)
    st.event("clock", cid, s, n)
    return 0


@m("gettimeofday")
def _gtod(eng, st, a, ins, nm):
    if st.choose(2, nm) == 1:
        st.event("clockfail", fail(eng, st, nm))
        return s32(-1)
    s, n = fresh_ts(eng, st, a[0], "tod", True)
    st.event("now", 0, s, scale(n, 1000))
    st.event("tod", s, n)
    return 0


@m("settimeofday")
def _stod(eng, st, a, ins, nm):
    s = eng.load(st, a[0], 8)
    u = eng.load(st, Ptr(a[0].r, add(a[0].o, 8)), 8)
    st.event("settimeofday", s, u)
    if st.choose(2, nm) == 1:
        fail(eng, st, nm)
        return s32(-1)
    return 0


@m("clock_settime")
def _cset(eng, st, a, ins, nm):
    s = eng.load(st, a[1], 8)
    u = eng.load(st, Ptr(a[1].r, add(a[1].o, 8)), 8)
    st.event("settimeofday", s, u)
    if st.choose(2, nm) == 1:
        fail(eng, st, nm)
        return s32(-1)
    return 0


@m("nanosleep")
def _nanosleep(eng, st, a, ins, nm):
    s = eng.load(st, a[0], 8)
    u = eng.load(st, Ptr(a[0].r, add(a[0].o, 8)), 8)
    st.event("nanosleep", s, u, a[1])
    if st.choose(2, nm) == 1:
        fail(eng, st, nm)
        if not isnull(eng, st, a[1]):
            fresh_ts(eng, st, a[1], "rem")
        return s32(-1)
    return 0


@m("time")
def _time(eng, st, a, ins, nm):
    t = st.fresh("time", 0, 1 << 40)
    if not isnull(eng, st, a[0]):
        eng.store(st, a[0], 8, t)
    return t


@m("localtime_r", "gmtime_r")
def _gmtime(eng, st, a, ins, nm):
    t = eng.load(st, a[0], 8)
    t = snum(eng, st, t, 64)
    # only a year that does not fit is refused
    if not (st.truth(("ge", dom.toF(add(t, 67768040609740800)))) and st.truth(("ge", dom.toF(sub(67768036191676799, t))))):
        fail(eng, st, nm, val=75)
        return 0
    p = a[1]
    eng.check(st, p, 56, nm)
    # an out-of-range year is reported as a failure by libc
    rngs = ((0, "sec", 0, 60), (4, "min", 0, 59), (8, "hour", 0, 23), (12, "mday", 1, 31), (16, "mon", 0, 11),
            (20, "year", -(1 << 31), (1 << 31) - 1), (24, "wday", 0, 6), (28, "yday", 0, 365), (32, "isdst", 0, 0))
    got = {}
    for off, n, lo, hi in rngs:
        v = lo if lo == hi else uf("tm_" + n, (nm, t), lo, hi, None, name="tm_" + n)
        got[n] = v
        eng.store(st, Ptr(p.r, add(p.o, off)), 4, v, nm)
    eng.store(st, Ptr(p.r, add(p.o, 36)), 4, 0)
    if nm == "gmtime_r":
        off = 0
    else:
        off = uf("tm_gmtoff", (nm, t), -86400, 86400, None)
    eng.store(st, Ptr(p.r, add(p.o, 40)), 8, off, nm)
    z = st.region("tzname", 8, "static", "str", const=True, meta={"L": 3})
    eng.store(st, Ptr(p.r, add(p.o, 48)), 8, Ptr(z.id, 0), nm)
    st.event("tm", nm, t, tuple(sorted(got.items(), key=lambda x: x[0])), off)
    return p


# ---------------------------------------------------------------- descriptors
# ghost ('fd', n): (form, kind, open, extra)
def new_fd(eng, st, kind, extra=None):
    n = st.ghost.get("nfd", 0)
    st.ghost["nfd"] = n + 1
    f = st.fresh("fd_%s" % kind, 0, 1023)
    for k, v in list(st.ghost.items()):
        if k.__class__ is tuple and k[0] == "fd" and v[2]:
            try:
                st.cs.assume(("ne", dom.toF(sub(f, v[0]))))
            except dom.Infeasible:
                pass
    st.ghost[("fd", n)] = (f, kind, True, extra, frozenset())
    return n, f


def find_fd(eng, st, v):
    v = snum(eng, st, v)
    hit = None
    for k, x in st.ghost.items():
        if k.__class__ is tuple and k[0] == "fd":
            if st.decide(("eq", dom.toF(sub(v, x[0])))) is True:
                if x[2]:
                    return k, x, v
                hit = (k, x, v)
    if hit:
        return hit
    return None, None, v


def use_fd(eng, st, v, what):
    k, x, f = find_fd(eng, st, v)
    if k is not None and not x[2]:
        raise Violation("fd", "%s on a descriptor already closed" % what)
    if k is None:
        if isinstance(f, int) and f < 0 or isinstance(f, F) and st.decide(("lt", f)) is True:
            raise Violation("fd", "%s on an invalid descriptor" % what)
    return k, x, f


@m("open64", "open", "openat")
def _open(eng, st, a, ins, nm):
    path = segs_at(eng, st, a[0])
    flags = cnum(eng, st, a[1])
    if st.choose(2, "open") == 1:
        e = fail(eng, st, "open")
        st.event("open", path, flags, None, eng.loc(st))
        return s32(-1)
    n, f = new_fd(eng, st, "file", (path, flags))
    if flags is not None and flags & 0o2000000:
        st.ghost[("fd", n)] = st.ghost[("fd", n)][:4] + (frozenset(["cloexec"]),)
    st.event("open", path, flags, f, eng.loc(st))
    return s32(f)


@m("close")
def _close(eng, st, a, ins, nm):
    k, x, f = find_fd(eng, st, a[0])
    if k is not None and not x[2]:
        raise Violation("doubleclose", "close() of a descriptor already closed")
    if k is None and (isinstance(f, int) and f < 0):
        raise Violation("fd", "close() of an invalid descriptor %d" % f)
    if k is not None:
        st.ghost[k] = (x[0], x[1], False, x[3], x[4])
    st.event("close", f)
    if st.choose(2, "close") == 1:
        fail(eng, st, "close")
        return s32(-1)
    return 0


def open_fds(st):
    return [x for k, x in st.ghost.items() if k.__class__ is tuple and k[0] == "fd" and x[2]]


@m("pipe", "pipe2")
def _pipe(eng, st, a, ins, nm):
    eng.check(st, a[0], 8, nm)
    if st.choose(2, nm) == 1:
        fail(eng, st, nm)
        return s32(-1)
    r, f0 = new_fd(eng, st, "pipe_r")
    w, f1 = new_fd(eng, st, "pipe_w")
    fl = 0
    if nm == "pipe2":
        fl = cnum(eng, st, a[1]) or 0
    fs = set()
    if fl & 0o2000000:
        fs.add("cloexec")
    if fl & 0o4000:
        fs.add("nonblock")
    for n in (r, w):
        st.ghost[("fd", n)] = st.ghost[("fd", n)][:4] + (frozenset(fs),)
    eng.store(st, a[0], 4, f0)
    eng.store(st, Ptr(a[0].r, add(a[0].o, 4)), 4, f1)
    st.event("pipe", f0, f1)
    return 0


@m("fcntl64", "fcntl")
def _fcntl(eng, st, a, ins, nm):
    k, x, f = use_fd(eng, st, a[0], "fcntl")
    cmd = cnum(eng, st, a[1])
    arg = snum(eng, st, a[2]) if len(a) > 2 else 0
    if cmd in (1, 3):
        if st.choose(2, "fcntl get") == 1:
            fail(eng, st, "fcntl")
            st.event("fcntl", f, cmd, arg, None)
            return s32(-1)
        if k is not None and cmd == 1:
            v = 1 if "cloexec" in x[4] else 0
        elif k is not None:
            v = add(st.fresh("getfl", 0, 0), 2048 if "nonblock" in x[4] else 2 if False else 0)
            v = 0o4000 if "nonblock" in x[4] else 0
            v |= 1 if x[1] == "pipe_w" else 0
        else:
            v = st.fresh("fcntl_flags", 0, (1 << 31) - 1)
        st.event("fcntl", f, cmd, None, v)
        return s32(v)
    if cmd in (2, 4):
        st.event("fcntl", f, cmd, arg, 0)
        if st.choose(2, "fcntl set") == 1:
            fail(eng, st, "fcntl")
            return s32(-1)
        if k is not None and isinstance(arg, int):
            fs = set(x[4])
            if cmd == 2:
                fs.discard("cloexec")
                if arg & 1:
                    fs.add("cloexec")
            else:
                fs.discard("nonblock")
                if arg & 0o4000:
                    fs.add("nonblock")
            st.ghost[k] = x[:4] + (frozenset(fs),)
        return 0
    raise Unsupported("fcntl command %r" % (cmd,))


@m("write")
def _write(eng, st, a, ins, nm):
    k, x, f = use_fd(eng, st, a[0], "write")
    n = unum(eng, st, a[2])
    eng.check(st, a[1], n, "write() source")
    first = eng.load(st, a[1], 1) if isinstance(n, int) and n >= 1 else None
    if first is UNDEF:
        raise Violation("uninit", "write() of uninitialised bytes")
    st.event("write", f, a[1], n, eng.loc(st))
    if st.choose(2, "write") == 1:
        fail(eng, st, "write")
        st.event("write_res", f, None)
        return i64(-1)
    atomic = k is not None and x[1] == "pipe_w" or eng.cfg.get("atomic_write")
    if not atomic:
        if isinstance(n, int) and n == 1:
            pass
        else:
            n = st.fresh("written", 0, MAXIO)
            st.cs.assume(("ge", dom.toF(sub(unum(eng, st, a[2]), n))))
    st.event("write_res", f, n)
    return i64(n)


MAXIO = 0x7ffff000       # the most one read or write transfers


def short_bound(eng, st, n):
    """with a bound on short transfers, the ones past it are complete"""
    lim = eng.cfg.get("max_short")
    if lim is None:
        return False
    k = st.ghost.get("short", 0)
    if k >= lim:
        st.cs.assume(("ge", dom.toF(sub(MAXIO, n))))
        return True
    st.ghost["short"] = k + 1
    return False


@m("read")
def _read(eng, st, a, ins, nm):
    k, x, f = use_fd(eng, st, a[0], "read")
    n = unum(eng, st, a[2])
    eng.check(st, a[1], n, "read() destination")
    st.event("read", f, a[1], n, eng.loc(st))
    c = st.choose(3, "read")
    if c == 1:
        fail(eng, st, "read")
        st.event("read_res", f, None)
        return i64(-1)
    if c == 2:
        st.event("read_res", f, 0)
        return 0
    if isinstance(n, int) and n == 0:
        raise dom.Infeasible()
    if isinstance(n, F):
        st.cs.assume(("ge", sub(n, 1)))
    if (isinstance(n, int) and n == 1) or eng.cfg.get("atomic_read"):
        r = n
    elif short_bound(eng, st, n):
        r = n
    else:
        r = st.fresh("nread", 1, MAXIO)
        st.cs.assume(("ge", dom.toF(sub(n, r))))
    hook = eng.cfg.get("read_fill")
    if hook:
        hook(eng, st, f, a[1], r)
    else:
        t = st.natom.get("readbuf", 0)
        st.natom["readbuf"] = t + 1
        eng.fill(st, a[1], r, ("fresh", ("readbuf", t)), "read")
    st.event("read_res", f, r)
    return i64(r)


@m("getrandom", "getentropy")
def _getrandom(eng, st, a, ins, nm):
    n = unum(eng, st, a[1])
    eng.check(st, a[0], n, nm)
    st.event("getrandom", a[0], n, cnum(eng, st, a[2]) if len(a) > 2 else 0, eng.loc(st))
    c = st.choose(3, nm)
    if c == 1:
        fail(eng, st, nm)
        return i64(-1)
    if c == 2:
        return 0
    if isinstance(n, int) and n == 0:
        raise dom.Infeasible()
    if isinstance(n, F):
        st.cs.assume(("ge", sub(n, 1)))
    if eng.cfg.get("atomic_read"):
        r = n
    elif short_bound(eng, st, n):
        r = n
    else:
        r = st.fresh("nrand", 1, MAXIO)
        st.cs.assume(("ge", dom.toF(sub(n, r))))
        r = simp(st.cs.norm(r))
    t = st.natom.get("krand", 0)
    st.natom["krand"] = t + 1
    eng.fill(st, a[0], r, ("fresh", ("krand", t)), nm)
    st.event("krand", a[0], r)
    return i64(r)


@m("poll")
def _poll(eng, st, a, ins, nm):
    fd = eng.load(st, a[0], 4)
    ev = eng.load(st, Ptr(a[0].r, add(a[0].o, 4)), 2)
    n = cnum(eng, st, a[1], 64)
    to = snum(eng, st, a[2])
    st.event("poll", snum(eng, st, fd), ev, n, to, eng.loc(st))
    c = st.choose(3, nm)
    if c == 1:
        fail(eng, st, nm)
        st.event("poll_res", -1)
        return s32(-1)
    if c == 2:
        if st.decide(("lt", dom.toF(to))) is True:
            raise dom.Infeasible()      # an infinite wait does not time out
        st.event("poll_res", 0)
        return 0
    eng.store(st, Ptr(a[0].r, add(a[0].o, 6)), 2, st.fresh("revents", 1, 0x7fff))
    st.event("poll_res", 1)
    return 1


@m("fsync", "fdatasync", "syncfs")
def _fsync(eng, st, a, ins, nm):
    k, x, f = use_fd(eng, st, a[0], nm)
    st.event(nm, f, eng.loc(st))
    if st.choose(2, nm) == 1:
        fail(eng, st, nm)
        return s32(-1)
    st.event("synced", f, x[3] if x else None, nm)
    return 0


@m("inotify_init", "inotify_init1")
def _ino_init(eng, st, a, ins, nm):
    if st.choose(2, nm) == 1:
        fail(eng, st, nm)
        return s32(-1)
    n, f = new_fd(eng, st, "inotify")
    if a and (cnum(eng, st, a[0]) or 0) & 0o2000000:
        st.ghost[("fd", n)] = st.ghost[("fd", n)][:4] + (frozenset(["cloexec"]),)
    return s32(f)


@m("inotify_add_watch")
def _ino_add(eng, st, a, ins, nm):
    k, x, f = use_fd(eng, st, a[0], nm)
    eng.check(st, a[1], 1, nm)
    st.event("watch", f, a[1], a[2])
    if st.choose(2, nm) == 1:
        fail(eng, st, nm)
        return s32(-1)
    st.event("watching", f)
    return s32(st.fresh("wd", 1, 1 << 20))


@m("ioctl")
def _ioctl(eng, st, a, ins, nm):
    k, x, f = use_fd(eng, st, a[0], nm)
    req = cnum(eng, st, a[1], 64)
    if req != 0x541b:
        raise Unsupported("ioctl request")
    if st.choose(2, nm) == 1:
        fail(eng, st, nm)
        return s32(-1)
    c = st.fresh("fionread", 0, (1 << 31) - 1)
    eng.store(st, a[2], 4, c)
    st.event("fionread", f, c)
    return 0


# ---------------------------------------------------------------- pthread
def _mkey(p):
    return ("mtx", p.r, p.o if isinstance(p.o, int) else repr(p.o))


@m("pthread_mutex_init", "pthread_cond_init")
def _minit(eng, st, a, ins, nm):
    eng.check(st, a[0], 40, nm)
    if st.ghost.get(("sync", a[0].r, a[0].o)):
        raise Violation("sync", "%s of an object that is already initialised" % nm)
    # with default attributes initialisation allocates nothing and cannot fail
    if not isnull(eng, st, a[1]) and st.choose(2, nm) == 1:
        e = st.fresh("errno_" + nm, 1, 133)
        st.event("fail", nm, e, eng.loc(st))
        return s32(e)
    st.ghost[("sync", a[0].r, a[0].o)] = nm[8:13]
    st.event(nm, a[0])
    return 0


@m("pthread_mutex_destroy", "pthread_cond_destroy")
def _mdestroy(eng, st, a, ins, nm):
    eng.check(st, a[0], 40, nm)
    k = ("sync", a[0].r, a[0].o)
    if k not in st.ghost and eng.cfg.get("sync_strict", True):
        raise Violation("sync", "%s on an object that is not initialised (or already destroyed)" % nm)
    if st.ghost.get(_mkey(a[0])):
        raise Violation("lock", "mutex destroyed while locked")
    st.ghost.pop(k, None)
    st.event(nm, a[0])
    if st.choose(2, nm) == 1:
        return s32(st.fresh("errno_" + nm, 1, 133))
    return 0


def sync_ready(eng, st, p, nm):
    if ("sync", p.r, p.o) not in st.ghost and st.mem[p.r].kind != "global" and eng.cfg.get("sync_strict", True):
        raise Violation("sync", "%s on an object that is not initialised" % nm)


@m("pthread_mutex_lock")
def _mlock(eng, st, a, ins, nm):
    eng.check(st, a[0], 40, nm)
    k = _mkey(a[0])
    sync_ready(eng, st, a[0], nm)
    if st.ghost.get(k):
        raise Violation("lock", "mutex locked twice (self-deadlock)")
    st.ghost[k] = True
    st.event("lock", a[0], eng.loc(st))
    h = eng.cfg.get("on_lock")
    if h:
        h(eng, st, a[0])
    return 0


@m("pthread_mutex_unlock")
def _munlock(eng, st, a, ins, nm):
    eng.check(st, a[0], 40, nm)
    k = _mkey(a[0])
    if not st.ghost.get(k):
        raise Violation("lock", "unlock of a mutex that is not held")
    h = eng.cfg.get("on_unlock")
    if h:
        h(eng, st, a[0])
    st.ghost[k] = False
    st.event("unlock", a[0], eng.loc(st))
    return 0


@m("pthread_cond_wait", "pthread_cond_timedwait", "pthread_cond_clockwait")
def _cwait(eng, st, a, ins, nm):
    eng.check(st, a[0], 48, nm)
    sync_ready(eng, st, a[0], nm)
    k = _mkey(a[1])
    if not st.ghost.get(k):
        raise Violation("lock", "condition wait without holding the mutex")
    dl = None
    if nm == "pthread_cond_timedwait":
        s = eng.load(st, a[2], 8)
        n = eng.load(st, Ptr(a[2].r, add(a[2].o, 8)), 8)
        if s is UNDEF or n is UNDEF:
            raise Violation("uninit", "timed wait with an uninitialised deadline")
        dl = (snum(eng, st, s, 64), snum(eng, st, n, 64))
    st.event("wait", a[0], a[1], dl, eng.loc(st))
    st.event("deadline", *(dl or (None, None)))
    h = eng.cfg.get("on_unlock")
    if h:
        h(eng, st, a[1])
    h = eng.cfg.get("on_wait")
    if h:
        h(eng, st, a[0], a[1])
    h = eng.cfg.get("on_lock")
    if h:
        h(eng, st, a[1])
    c = st.choose(3 if dl else 2, nm)
    if c == 1:
        e = st.fresh("errno_wait", 1, 133)
        st.cs.assume(("ne", sub(e, 110)))
        st.event("fail", nm, e, eng.loc(st))
        st.event("waitfail", e)
        return s32(e)
    if c == 2:
        st.event("fail", nm, 110, eng.loc(st))
        st.event("waitfail", 110)
        st.event("timedout", dl)
        return 110
    return 0


@m("pthread_cond_signal", "pthread_cond_broadcast")
def _csignal(eng, st, a, ins, nm):
    eng.check(st, a[0], 48, nm)
    sync_ready(eng, st, a[0], nm)
    st.event("signal", a[0], nm, eng.loc(st))
    return 0


# ---------------------------------------------------------------- directories
@m("opendir")
def _opendir(eng, st, a, ins, nm):
    eng.check(st, a[0], 1, nm)
    segs = segs_at(eng, st, a[0])
    st.event("opendir", segs)
    if st.choose(2, nm) == 1:
        fail(eng, st, nm)
        return 0
    r = st.region("DIR", 16, "dir", "sym", site=eng.loc(st), meta={"path": segs})
    return Ptr(r.id, 0)


def dirp(eng, st, p, what):
    if not isinstance(p, Ptr):
        eng.check(st, p, 1, what)
    r = st.mem.get(p.r)
    if r is None or r.kind != "dir":
        raise Violation("dir", "%s on something that is not a directory stream" % what)
    if not r.alive:
        raise Violation("dir", "%s on a closed directory stream" % what)
    return r


@m("closedir")
def _closedir(eng, st, a, ins, nm):
    r = dirp(eng, st, a[0], nm)
    st.wr(r.id).alive = False
    st.event("closedir", r.id)
    if st.choose(2, nm) == 1:
        fail(eng, st, nm)
        return s32(-1)
    return 0


# ---------------------------------------------------------------- iconv, wide chars
@m("iconv_open")
def _iconv_open(eng, st, a, ins, nm):
    t, f = eng.cstr(st, a[0]), eng.cstr(st, a[1])
    if st.choose(2, nm) == 1:
        fail(eng, st, nm)
        return i64(-1)
    r = st.region("iconv_t", 16, "iconv", "sym", site=eng.loc(st), meta={"to": t, "from": f})
    return Ptr(r.id, 0)


def icd(eng, st, p, what):
    if not isinstance(p, Ptr) or st.mem.get(p.r) is None or st.mem[p.r].kind != "iconv":
        raise Violation("iconv", "%s on an invalid conversion descriptor" % what)
    if not st.mem[p.r].alive:
        raise Violation("iconv", "%s on a closed conversion descriptor" % what)
    return st.mem[p.r]


@m("iconv_close")
def _iconv_close(eng, st, a, ins, nm):
    r = icd(eng, st, a[0], nm)
    st.wr(r.id).alive = False
    clob = st.choose(2, nm)
    if clob:
        fail(eng, st, nm)
        return s32(-1)
    return 0


@m("iconv")
def _iconv(eng, st, a, ins, nm):
    d = icd(eng, st, a[0], nm)
    ip = eng.load(st, a[1], 8)
    inb = unum(eng, st, eng.load(st, a[2], 8))
    op = eng.load(st, a[3], 8)
    outb = unum(eng, st, eng.load(st, a[4], 8))
    for p, n, w in ((ip, inb, "iconv input"), (op, outb, "iconv output")):
        if isinstance(n, int) and n == 0:
            continue
        if isinstance(n, F) and st.truth(("eq", n)):
            continue
        eng.check(st, p, n, w)
    c = st.choose(3, nm)       # 0 full, 1 E2BIG (partial), 2 other error (partial)
    iu = inb if c == 0 else st.fresh("iconv_in", 0, None)
    if c != 0:
        st.cs.assume(("ge", dom.toF(sub(inb, iu))))
    k = st.fresh("iconv_out", 0, None)
    wide = d.meta["to"] == b"WCHAR_T"
    ou = scale(k, 4) if wide else k
    st.cs.assume(("ge", dom.toF(sub(outb, ou))))
    if wide:
        st.cs.assume(("ge", dom.toF(sub(iu, k))))       # one wide char takes at least one byte
    else:
        # each wide character produces between 1 and 4 bytes
        pass
    t = st.natom.get("iconvbuf", 0)
    st.natom["iconvbuf"] = t + 1
    st.event("iconv", d.meta["from"], d.meta["to"], ip, inb, op, outb, iu, ou, c)
    if st.decide(("ge", dom.toF(sub(0, ou)))) is not True:
        if st.truth(("ge", dom.toF(sub(ou, 1)))):
            eng.fill(st, op, ou, ("fresh", ("iconvbuf", t), (1, 255) if not wide else (0, 255)), nm)
    eng.store(st, a[1], 8, Ptr(ip.r, add(ip.o, iu)) if isinstance(ip, Ptr) else ip)
    eng.store(st, a[2], 8, sub(inb, iu))
    eng.store(st, a[3], 8, Ptr(op.r, add(op.o, ou)) if isinstance(op, Ptr) else op)
    eng.store(st, a[4], 8, sub(outb, ou))
    if c == 0:
        return 0
    if c == 1:
        fail(eng, st, nm, val=7)
    else:
        e = fail(eng, st, nm)
        st.cs.assume(("ne", sub(e, 7)))
    return i64(-1)


@m("wcslen")
def _wcslen(eng, st, a, ins, nm):
    r, o = eng.check(st, a[0], 4, nm)
    if r.default == "wstr" or (r.meta and "WL" in r.meta):
        return sub(r.meta["WL"], st.cs.div(o, 4))
    # unknown content: first terminator lies somewhere before the buffer's known zero tail
    z = wz(eng, st, r)
    if z is None:
        raise Unsupported("wcslen")
    k = st.fresh("wcslen", 0, None)
    st.cs.assume(("ge", dom.toF(sub(z, k))))
    return k


def wz(eng, st, r):
    """index (in wide chars) of a position known to be zero, or None"""
    if r.default != "zero":
        for e in r.log:
            if e[0] == "w" and e[2] == 4 and (e[3] == 0 or isinstance(e[3], F) and st.decide(("eq", e[3])) is True):
                return st.cs.div(e[1], 4)
            if e[0] == "set" and e[2:] and isinstance(e[3], int) and e[3] == 0 and \
                    st.truth(("ge", dom.toF(sub(e[2], 4)))):
                return st.cs.div(add(e[1], 3), 4)
        for o, c in r.cells.items():
            if c == (4, 0):
                return o // 4
        raise Violation("uninit", "wide string in '%s' has no terminator" % r.name)
    top = 0
    for e in r.log:
        if e[0] == "w" and (e[3] == 0 or isinstance(e[3], F) and st.decide(("eq", e[3])) is True):
            continue
        if e[0] in ("w", "set", "fresh", "cp"):
            end = add(e[1], e[2])
            if isinstance(top, int) and top == 0:
                top = end
            elif st.decide(("ge", dom.toF(sub(end, top)))) is True:
                top = end
            elif st.decide(("ge", dom.toF(sub(top, end)))) is True:
                pass
            else:
                return None
    for o, c in r.cells.items():
        if c[1] == 0:
            continue
        end = o + c[0]
        if isinstance(top, int):
            top = max(top, end)
    # need top + 4 <= size
    if st.truth(("ge", dom.toF(sub(r.size, add(top, 4))))):
        return st.cs.div(add(top, 3), 4)
    raise Violation("oob", "wide string in '%s' may lack a terminator" % r.name)


@m("wcschr")
def _wcschr(eng, st, a, ins, nm):
    eng.check(st, a[0], 4, nm)
    c = unum(eng, st, a[1], 32)
    st.event("wcschr", a[0], c)
    r = st.mem[a[0].r]
    v = uf("wcschr", (a[0].r, c), 0, 1, None, name="wcschr(%s)" % dom.short(dom.toF(c)))
    if isinstance(v, int) and v == 0 or isinstance(v, F) and not st.truth(("ge", sub(v, 1))):
        return 0
    k = st.fresh("wcschr_at", 0, None)
    return Ptr(a[0].r, scale(k, 4))


# ---------------------------------------------------------------- C++ runtime
@m("_Znwm", "_Znam")
def _new(eng, st, a, ins, nm):
    n = unum(eng, st, a[0])
    r = st.region("new@" + eng.loc(st), n, "heap", "uninit", site=eng.loc(st))
    st.event("alloc", r.id, n)
    return Ptr(r.id, 0)


@pat(r"_ZSt\d+__glibcxx_assert_fail.*")
def _cxxassert(eng, st, a, ins, nm):
    raise Violation("bounds", "a precondition of the C++ library is broken", "library precondition")


@pat(r"_ZSt\d+__throw_.*|__cxa_throw|_ZSt9terminatev|__clang_call_terminate|__cxa_rethrow")
def _throw(eng, st, a, ins, nm):
    st.event("throw", nm)
    raise PathEnd("throw")


@m("dirname", "__xpg_basename", "basename")
def _dirname(eng, st, a, ins, nm):
    # both may modify the argument and return a pointer into it or to a static string
    r, o = eng.check(st, a[0], 1, nm)
    L = strlen(eng, st, a[0], nm)
    if r.const:
        raise Violation("constwrite", "%s may modify its constant argument" % nm)
    key = st.natom.get("dirname", 0)
    st.natom["dirname"] = key + 1
    src = segs_at(eng, st, a[0])
    st.event("dirname", nm, a[0], src)
    if st.choose(2, nm) == 1:
        s = st.region("static string", 2, "static", "zero", const=True)
        s.cells[0] = (1, ord("."))
        return Ptr(s.id, 0)
    n = st.fresh(nm + "_len", 1, None)
    off = 0
    if nm != "dirname":
        off = st.fresh(nm + "_off", 0, None)
        st.cs.assume(("ge", dom.toF(sub(sub(L, off), n))))
    else:
        st.cs.assume(("ge", dom.toF(sub(L, n))))
    eng.store(st, Ptr(a[0].r, add(a[0].o, add(off, n))), 1, 0)
    return Ptr(a[0].r, add(a[0].o, off))


# ---------------------------------------------------------------- analysis intrinsics
def aname(eng, st, p):
    s = eng.cstr(st, p)
    return s.decode() if s else "?"


@m("vf_u64", "vf_u32", "vf_u16", "vf_u8", "vf_i64", "vf_i32", "vf_i16", "vf_i8")
def _vf_int(eng, st, a, ins, nm):
    w = int(nm[4:])
    n = aname(eng, st, a[0])
    if nm[3] == "u":
        return st.fresh(n, 0, (1 << w) - 1)
    return st.fresh(n, -(1 << (w - 1)), (1 << (w - 1)) - 1)


@m("vf_range")
def _vf_range(eng, st, a, ins, nm):
    lo, hi = cnum(eng, st, a[1], 64), cnum(eng, st, a[2], 64)
    if lo == hi:
        return i64(lo)
    return st.fresh(aname(eng, st, a[0]), lo, hi)


@m("vf_buf")
def _vf_buf(eng, st, a, ins, nm):
    """vf_buf(name, size, init): caller-owned object of exactly size bytes"""
    n = aname(eng, st, a[0])
    sz = unum(eng, st, a[1])
    init = cnum(eng, st, a[2])
    r = st.region(n, sz, "caller", "sym" if init else "uninit")
    return Ptr(r.id, 0)


@m("vf_cbuf")
def _vf_cbuf(eng, st, a, ins, nm):
    n = aname(eng, st, a[0])
    r = st.region(n, unum(eng, st, a[1]), "caller", "sym", const=True)
    return Ptr(r.id, 0)


@m("vf_str")
def _vf_str(eng, st, a, ins, nm):
    n = aname(eng, st, a[0])
    hi = cnum(eng, st, a[1], 64)
    L = st.fresh("len(%s)" % n, 0, hi)
    r = st.region(n, add(L, 1), "caller", "str", const=True, meta={"L": L})
    st.ghost[("strlen", n)] = L
    return Ptr(r.id, 0)


@m("vf_wstr")
def _vf_wstr(eng, st, a, ins, nm):
    n = aname(eng, st, a[0])
    L = st.fresh("wlen(%s)" % n, 0, 1 << 20)
    r = st.region(n, scale(add(L, 1), 4), "caller", "wstr", const=True, meta={"WL": L})
    return Ptr(r.id, 0)


@m("vf_assume")
def _vf_assume(eng, st, a, ins, nm):
    c = a[0]
    c = num(eng, st, c)
    if isinstance(c, int):
        if not c & 0xffffffff:
            raise dom.Infeasible()
        return None
    c = st.cs.as_u(c, 32)
    if st.truth(("eq", dom.toF(c))):
        raise dom.Infeasible()
    return None


@m("vf_assert")
def _vf_assert(eng, st, a, ins, nm):
    ident = aname(eng, st, a[1])
    c = a[0]
    if c is UNDEF:
        raise Violation("uninit", "obligation '%s' depends on uninitialised data" % ident, ident)
    c = num(eng, st, c)
    if isinstance(c, F):
        c = st.cs.as_u(c, 32)
    ok = bool(c) if isinstance(c, int) else not st.truth(("eq", c))
    eng.oblige(ident, ok)
    if not ok:
        raise Violation("spec", ident, ident)
    return None


@m("vf_choose")
def _vf_choose(eng, st, a, ins, nm):
    return st.choose(cnum(eng, st, a[0]), aname(eng, st, a[1]))


@m("vf_end")
def _vf_end(eng, st, a, ins, nm):
    raise PathEnd("end")


@m("vf_mark")
def _vf_mark(eng, st, a, ins, nm):
    st.event("mark", aname(eng, st, a[0]), tuple(a[1:]), eng.loc(st))
    return None


@m("vf_errno")
def _vf_errno(eng, st, a, ins, nm):
    """errno of the most recent failing call, 0 if none failed"""
    for e in reversed(st.events()):
        if e[0] == "fail":
            return s32(e[2])
    return 0


@m("vf_failed")
def _vf_failed(eng, st, a, ins, nm):
    return int(any(e[0] == "fail" for e in st.events()))


@m("vf_is_fail_errno")
def _vf_is_fail_errno(eng, st, a, ins, nm):
    """is the (negative) result the errno of some call that failed?"""
    v = snum(eng, st, a[0])
    for e in reversed(st.events()):
        if e[0] == "fail" and st.decide(("eq", dom.toF(add(v, e[2])))) is True:
            return 1
    return 0


def leaks(eng, st):
    """heap blocks, streams and descriptors still held"""
    out = []
    for r in st.mem.values():
        if r.alive and r.kind in ("heap", "dir", "iconv", "FILE"):
            out.append("%s '%s'" % (r.kind, r.name))
    for x in open_fds(st):
        out.append("descriptor (%s)" % x[1])
    return out


@m("vf_no_leak")
def _vf_no_leak(eng, st, a, ins, nm):
    """every resource acquired so far has been released (minus n blocks)"""
    l = leaks(eng, st)
    ident = aname(eng, st, a[0])
    eng.oblige(ident, not l)
    if l:
        raise Violation("leak", "still held at this exit: " + ", ".join(l), ident)
    return None


@m("vf_live")
def _vf_live(eng, st, a, ins, nm):
    """number of resources held"""
    return len(leaks(eng, st))


@m("vf_open_fds")
def _vf_open_fds(eng, st, a, ins, nm):
    return len(open_fds(st))


@m("vf_fd_flag")
def _vf_fd_flag(eng, st, a, ins, nm):
    """vf_fd_flag(fd, which): 1 if the descriptor has close-on-exec (0) / non-blocking (1); -1 unknown fd"""
    k, x, f = find_fd(eng, st, a[0])
    if k is None or not x[2]:
        return s32(-1)
    return int(("cloexec", "nonblock")[cnum(eng, st, a[1])] in x[4])


@m("vf_locked")
def _vf_locked(eng, st, a, ins, nm):
    return sum(1 for k, v in st.ghost.items() if k.__class__ is tuple and k[0] == "mtx" and v)


@m("vf_writable_upto")
def _vf_writable(eng, st, a, ins, nm):
    return None


@m("vf_init_upto")
def _vf_init_upto(eng, st, a, ins, nm):
    """obligation: bytes [p, p+n) are initialised (n constant)"""
    n = cnum(eng, st, a[1], 64)
    for i in range(n):
        if eng.load(st, Ptr(a[0].r, add(a[0].o, i)), 1) is UNDEF:
            return 0
    return 1


@m("vf_same")
def _vf_same(eng, st, a, ins, nm):
    """1 if both values are provably/possibly equal (splits if undecided)"""
    return int(eng.istrue(st, eng.icmp(st, "eq", a[0], a[1], "i64")))


@m("vf_undef")
def _vf_undef(eng, st, a, ins, nm):
    p = a[0]
    n = cnum(eng, st, a[1], 64)
    if n in (1, 2, 4, 8):
        v = eng.load(st, p, n)
        if v is UNDEF or not isinstance(v, tuple):
            return int(v is UNDEF)
    for i in range(n):
        if eng.load(st, Ptr(p.r, add(p.o, i)), 1) is UNDEF:
            return 1
    return 0


@m("vf_thread")
def _vf_thread(eng, st, a, ins, nm):
    """continue as another thread: its thread-local objects"""
    switch_thread(eng, st, cnum(eng, st, a[0]))
    return None


def switch_thread(eng, st, t):
    cur = st.ghost.get("thread", 0)
    if t == cur:
        return
    tls = {}
    for n in list(st.globs):
        g = eng.p.globals.get(n)
        if n == "errno" or g is not None and g["tls"]:
            tls[n] = st.globs.pop(n)
    sv = dict(st.ghost.get("tls", ()))
    sv[cur] = tuple(sorted(tls.items()))
    st.globs.update(dict(sv.pop(t, ())))
    st.ghost["tls"] = tuple(sorted(sv.items()))
    st.ghost["thread"] = t
    if "errno" not in st.globs:
        st.globs["errno"] = st.region("errno", 4, "tls", "zero").id


@m("vf_new")
def _vf_new(eng, st, a, ins, nm):
    """heap object that is always available"""
    r = st.region("object", unum(eng, st, a[0]), "heap", "uninit")
    return Ptr(r.id, 0)


@m("vf_evn")
def _vf_evn(eng, st, a, ins, nm):
    """number of effect-log entries of that name"""
    n = aname(eng, st, a[0])
    return sum(1 for e in st.events() if e[0] == n)


@m("vf_ev")
def _vf_ev(eng, st, a, ins, nm):
    """field k (1..) of the i-th effect-log entry of that name"""
    n = aname(eng, st, a[0])
    i, k = cnum(eng, st, a[1]), cnum(eng, st, a[2])
    l = [e for e in st.events() if e[0] == n]
    if i < 0:
        i += len(l)
    if i < 0 or i >= len(l):
        raise Violation("spec", "expected call '%s' is missing" % n, n)
    v = l[i][k]
    if v is UNDEF:
        raise Violation("uninit", "call '%s' receives an uninitialised value" % n)
    if v is None:
        return i64(-1)
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, (int, F)):
        return i64(v)
    if isinstance(v, Ptr):
        return v
    raise Unsupported("vf_ev on %r" % (v,))


@m("vf_evorder")
def _vf_evorder(eng, st, a, ins, nm):
    """position in the log of the i-th entry of that name, -1 if there is none"""
    n = aname(eng, st, a[0])
    i = cnum(eng, st, a[1])
    l = [k for k, e in enumerate(st.events()) if e[0] == n]
    if i < 0:
        i += len(l)
    if i < 0 or i >= len(l):
        return i64(-1)
    return l[i]


@m("vf_sync_live")
def _vf_sync_live(eng, st, a, ins, nm):
    """number of mutexes/conditions initialised and not destroyed"""
    return sum(1 for k, v in st.ghost.items() if k.__class__ is tuple and k[0] == "sync")


@m("vf_nofault")
def _vf_nofault(eng, st, a, ins, nm):
    """from here on library calls succeed (1), succeed except rename (2), may fail (0)"""
    st.ghost["nofault"] = cnum(eng, st, a[0])


M_BASE = dict(M)
