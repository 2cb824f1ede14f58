import random

from vsa import dom, libc, poly
from vsa.dom import F, KS, KSBIT, ATOMS, sub, simp
from vsa.engine import FnPtr, PathEnd, Ptr, UNDEF, Violation
from vsa.run import check

CFG = {"cipher": True, "atomic_read": True}


def ended(eng, st, a, ins, nm):
    """no generator can be had: ending the process is the documented answer"""
    st.event("abort")
    raise PathEnd("abort")


def g(ctx, *es, **kw):
    p = ctx.prog(harness=("random.c",))
    cfg = dict(CFG)
    cfg.update(kw.pop("cfg", {}))
    models = dict(kw.pop("models", {}))
    for n in ("vf_out", "vf_bounded", "vf_text", "vf_interfere"):
        models.setdefault(n, lambda eng, st, a, ins, nm: None)
    models.setdefault("abort", ended)
    kw.setdefault("args", ())
    for e in es:
        lab = e + ("" if not kw["args"] else " %s" % (kw["args"],))
        ctx.add(p, e, cfg=cfg, models=models, label=lab, **kw)


# ---------------------------------------------------------------- R01, R02
def ks_part(f):
    return {a: c for a, c in f.t if a in KSBIT} if isinstance(f, F) else {}


def has_ks(f):
    """does a form depend on generator bits, also inside derived atoms"""
    return any(x < 0 for x in dom.roots_of(f))


def pow2_set(d):
    """coefficients 1, 2, 4.. of distinct bits -> number of bits"""
    cs = sorted(d.values())
    return len(cs) if cs == [1 << i for i in range(len(cs))] else None


def possible(st, conds):
    cs = st.cs.clone()
    try:
        for c in conds:
            cs.assume(c)
    except dom.Infeasible:
        return None
    return poly.member(cs)


def conds_of(st):
    t = st.trace
    while t is not None:
        c = t[1][1]
        if c.__class__ is tuple and c[0].__class__ is tuple:
            yield c[0], c[1]
        t = t[0]


def bounded(eng, st, a, ins, nm):
    v = st.cs.as_u(a[0], 64)
    m = st.cs.as_u(a[1], 64)
    k = libc.cnum(eng, st, a[2])
    v = simp(st.cs.norm(v))
    m = simp(st.cs.norm(m))
    ex = eng.extra = getattr(eng, "extra", None) or {"reach": {}, "unproven": 0, "forms": 0}
    w = ex["reach"].setdefault(k, [False, False, eng.loc(st), eng.stack(st)])
    if possible(st, [("eq", dom.toF(v))]) is not None:
        w[0] = True
    if possible(st, [("eq", dom.toF(sub(v, m)))]) is not None:
        w[1] = True
    if k == 0:
        return
    if not isinstance(v, F):
        ex["unproven"] += 1
        return
    d = ks_part(v)
    n = pow2_set(d)
    if len(d) != len(v.t):
        for x, _ in v.t:
            if ATOMS[x].kind == "uf" and ATOMS[x].d[0] in ("or", "and") and all(has_ks(y) for y in ATOMS[x].d[1]):
                raise Violation("uniform", "a bit of the candidate combines two generator bits (%s), it is not equally often 0 and 1" % ATOMS[x].d[0],
                                "candidate bits")
        if has_ks(v) and any(ATOMS[x].kind == "uf" and ATOMS[x].d[0] in ("uremx", "udivx", "mul") for x, _ in v.t):
            raise Violation("uniform", "the value is scaled or reduced into range, not drawn from a power-of-two range", "candidate range")
        if not has_ks(v):
            raise Violation("uniform", "the value does not come from the generator", "generator")
        ex["unproven"] += 1
        return
    if n is None or v.c:
        raise Violation("uniform", "the candidate %r is not a sum of distinct powers of two of distinct generator bits" % v, "candidate bits")
    if n != k:
        raise Violation("uniform", "the candidate has %d generator bits, the maximum %d" % (n, k), "candidate range")
    ex["forms"] += 1
    # decisions taken on generator bits
    for (kd, f), val in conds_of(st):
        e = ks_part(f)
        if not e:
            if has_ks(f):
                ex["unproven"] += 1
            continue
        s = 1 if min(e.values(), key=abs) > 0 else -1
        cand = F(0, tuple(sorted((x, c * s) for x, c in e.items())))
        if pow2_set(ks_part(cand)) is None or kd not in ("ge", "lt"):
            ex["unproven"] += 1
            continue
        if set(e) == set(d):
            continue
        if set(e) & set(d):
            raise Violation("uniform", "the returned candidate shares generator bits with a rejected one", "fresh bits")
        x = possible(st, [("ge", dom.toF(sub(m, cand)))])
        if x is None:
            eng.oblige("only a candidate above the maximum is redrawn")
        elif x is False:
            ex["unproven"] += 1
        else:
            raise Violation("uniform", "a candidate within range is redrawn", "rejection")
    eng.oblige("the candidate has exactly the bits of the maximum")


ABORT = {"abort": lambda eng, st, a, ins, nm: _noabort(eng, st)}


def _noabort(eng, st):
    raise Violation("abort", "the process is aborted though nothing failed", "abort")


@check("R01")
def r01(ctx):
    ctx.rule("interval and bit-provenance domain: result <= maximum for every maximum of every width, "
             "partitioned by the maximum's most significant bit; abort unreachable; float ranges by exact rounding")
    g(ctx, "r01_8", "r01_16", "r01_32", "r01_64", "r01_float", models=ABORT, cfg={"max_same_split": 3})


@check("R02")
def r02(ctx):
    ctx.rule("bit provenance: the value is the sum of 2^i * (i-th of k distinct generator bits) where 2^(k-1) <= maximum < 2^k; "
             "a candidate is redrawn only if above the maximum; 0 and the maximum are reachable")
    g(ctx, "r01_8", "r01_16", "r01_32", "r01_64", "r02_full", models=dict(ABORT, vf_bounded=bounded),
      only=("uniform",), cfg={"max_same_split": 3})
    for r in ctx.run():
        ex = r["extra"]
        if not ex:
            continue
        if ex["unproven"]:
            ctx.notes.append("%s: %d values or decisions outside the recognised form" % (r["entry"], ex["unproven"]))
        for k, (z, m, loc, stack) in ex["reach"].items():
            if not z:
                ctx.violate(loc, "0 is never returned for a maximum of %d bits (%s)" % (k, r["entry"]), kind="uniform", detail=stack)
            if not m:
                ctx.violate(loc, "the maximum is never returned for a maximum of %d bits (%s)" % (k, r["entry"]), kind="uniform", detail=stack)


# ---------------------------------------------------------------- R03, R04
ALPHA = [b"0123456789abcdef", b"ABCDEFGHIJKLMNOPQRSTUVWXYZ234567",
         b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"]
BITS = [4, 5, 6]


def text(eng, st, a, ins, nm):
    p = a[0]
    n = libc.unum(eng, st, a[1])
    kind = libc.cnum(eng, st, a[2])
    count = libc.unum(eng, st, a[3])
    if isinstance(n, F):
        n = eng.enum_small(st, n, 64)
    b = BITS[kind]
    alpha = ALPHA[kind]
    seen = {}
    for i in range(n):
        v = eng.load(st, Ptr(p.r, simp(dom.add(p.o, i))), 1)
        if v is UNDEF:
            raise Violation("text", "character %d of the text is not written" % i, "written")
        # characters that carry data: ceil(8 * count / b)
        data = st.truth(("ge", dom.toF(sub(dom.scale(count, 8), b * i + 1))))
        if not data:
            if v != ord("="):
                raise Violation("text", "character %d of the text is %r, not padding" % (i, v), "padding")
            continue
        # bits left for this character
        free = b
        if not st.truth(("ge", dom.toF(sub(dom.scale(count, 8), b * (i + 1))))):
            r = simp(st.cs.norm(sub(dom.scale(count, 8), b * i)))
            free = r if isinstance(r, int) else eng.enum_small(st, r, 8)
        if isinstance(v, int):
            if v not in alpha:
                raise Violation("text", "character %d of the text is %r" % (i, v), "alphabet")
            raise Violation("bits", "character %d of the text is the constant '%c'" % (i, v), "own bits")
        f = simp(st.cs.norm(v))
        at = ATOMS[f.t[0][0]] if isinstance(f, F) and len(f.t) == 1 and f.t[0][1] == 1 and f.c == 0 else None
        if at is None or at.kind != "uf" or at.d[0] != "tab":
            eng.stats.setdefault("unproven", {})["character not taken from a table"] = 1
            continue
        tab, ix = at.d[1]
        lo, hi = st.cs.bounds(ix)
        vals = set(tab[lo:hi + 1])
        d = ks_part(ix)
        exact = isinstance(ix, F) and len(d) == len(ix.t)
        if exact:
            vals = {0}
            for c in d.values():
                vals |= {x + c for x in vals}
            vals = {tab[x + ix.c] for x in vals if 0 <= x + ix.c < len(tab)}
        bad = [x for x in vals if x not in alpha]
        if bad:
            if exact:
                raise Violation("text", "character %d of the text may be %r" % (i, bad[0]), "alphabet")
            eng.stats.setdefault("unproven", {})["alphabet membership"] = 1
        if not exact:
            if not has_ks(ix):
                raise Violation("bits", "character %d of the text does not come from the generator" % i, "own bits")
            eng.stats.setdefault("unproven", {})["index is not a selection of bits"] = 1
            continue
        for x in d:
            if x in seen:
                raise Violation("bits", "characters %d and %d of the text use the same generator bit" % (seen[x], i), "own bits")
            seen[x] = i
        if len(vals) != 1 << free:
            raise Violation("bits", "character %d of the text takes %d symbols where the encoding allows %d" % (i, len(vals), 1 << free), "reachable symbols")
        want = {alpha[x << (b - free)] for x in range(1 << free)}
        if vals != want:
            raise Violation("text" if free < b else "bits", "character %d of the text takes symbols the encoding does not" % i, "symbols")
    eng.oblige("every character of the text is well-formed")


def texts(ctx, **kw):
    for kind in (0, 1, 2):
        g(ctx, "r03_trunc", "r03_fit", args=(kind,), models=dict(ABORT, vf_text=text), **kw)


@check("R03")
def r03(ctx):
    ctx.rule("bounds of every write against a buffer of exactly len bytes; termination; alphabet and padding of every "
             "character; length of the full text; counts beyond int refused")
    texts(ctx, ignore=("bits",))
    g(ctx, "r03_string", models=ABORT, cfg={"max_same_split": 9, "enum_ptr": 16})


@check("R04")
def r04(ctx):
    ctx.rule("bit provenance of table indices: distinct generator bits per character, exactly as many as the encoding allows")
    texts(ctx, only=("bits",))


# ---------------------------------------------------------------- R05
def ks_direct(v):
    """keystream bytes (and kernel bytes, as their atoms) a value shows"""
    if not isinstance(v, F):
        return set()
    return {KSBIT[a][0] if a in KSBIT else ("kernel", a) for a, _ in v.t
            if a in KSBIT or ATOMS[a].kind == "uf" and ATOMS[a].d[0] == "fb"}


def ancestors(n, memo):
    """keystream and kernel bytes byte n was computed from"""
    r = memo.get(n)
    if r is None:
        r = set()
        todo = [n]
        while todo:
            for x in KS[todo.pop()][0]:
                if x >= 0:
                    r.add(("kernel", x))
                elif -1 - x not in r:
                    r.add(-1 - x)
                    todo.append(-1 - x)
        memo[n] = r
    return r


def out5(eng, st, a, ins, nm):
    p = a[0]
    n = libc.cnum(eng, st, a[1], 64)
    prev = st.ghost.get("out", ())
    done = set(prev)
    new = []
    for i in range(n):
        v = eng.load(st, Ptr(p.r, simp(dom.add(p.o, i))), 1)
        if v is UNDEF:
            raise Violation("output", "byte %d of the output is not written" % i, "written")
        k = ks_direct(v)
        if len(k) != 1 or isinstance(v, F) and len(v.t) != 8:
            raise Violation("output", "byte %d of the output (%r) is not a generated byte" % (i, v), "generated")
        k = k.pop()
        if isinstance(k, tuple):
            raise Violation("output", "byte %d of the output is raw kernel entropy" % i, "generated")
        if k in done:
            raise Violation("output", "byte %d of the output was already handed out" % i, "once")
        done.add(k)
        new.append(k)
    memo = {}
    anc = set()
    for k in done:
        anc |= ancestors(k, memo)
    if anc & done:
        raise Violation("output", "%d bytes are used both as output and as key" % len(anc & done), "key")
    st.ghost["out"] = prev + tuple(new)
    gone = done | anc
    for r in list(st.mem.values()):
        if r.kind not in ("global", "tls", "heap") or r.const or r.id == p.r or not r.alive:
            continue
        for o, (sz, v) in r.cells.items():
            if sz > 1 and isinstance(v, F) and dom.mixdepth(v) >= dom.KS_DEPTH:
                # a word of cipher output: what its bytes show
                x = set().union(*(ks_direct(eng.byte_of(st, v, sz, i)) for i in range(sz))) & gone
            else:
                x = ks_direct(v) & gone
            if x:
                raise Violation("output", "'%s' still holds %s at offset %d" % (
                    r.name, "a byte that was handed out" if x & done else "the key of bytes that were handed out", o), "wiped")
    eng.oblige("output bytes are fresh, distinct and wiped")


@check("R05")
def r05(ctx):
    ctx.rule("value numbering of keystream bytes: every output byte is one keystream byte, distinct from every other output "
             "byte, not an ancestor of one, and gone (with its key) from the library's memory")
    first = [0, 8, 424, 425, 467, 468, 600]
    if ctx.thorough:
        first = sorted(set(first + [2, 3, 4, 7, 16, 43, 45, 100, 200, 300, 423, 426, 459, 461, 466, 469, 511, 512, 513, 1000, 1500]))
    for n in first:
        g(ctx, "r05_seq", args=(n,), models=dict(ABORT, vf_out=out5))
    g(ctx, "r05_any", models=ABORT, cfg={"havoc_reads": True})


# ---------------------------------------------------------------- R09
SIGMA = [int.from_bytes(b"expand 32-byte k"[i:i + 4], "little") for i in (0, 4, 8, 12)]
ROUNDS = [(0, 4, 8, 12), (1, 5, 9, 13), (2, 6, 10, 14), (3, 7, 11, 15), (0, 5, 10, 15), (1, 6, 11, 12), (2, 7, 8, 13), (3, 4, 9, 14)]


def chacha(key, counter, plus, xor, rot):
    """the ChaCha20 block function of RFC 8439 over any representation of words"""
    s = SIGMA + key[:8] + [counter] + key[8:]
    x = list(s)
    for _ in range(10):
        for a, b, c, d in ROUNDS:
            for p, q, r, k in ((a, b, d, 16), (c, d, b, 12), (a, b, d, 8), (c, d, b, 7)):
                x[p] = plus(x[p], x[q])
                x[r] = rot(xor(x[r], x[p]), k)
    return [plus(x[i], s[i]) for i in range(16)]


def reference(eng, st, key, counter):
    """value numbers of the 64 bytes of a block"""
    op = lambda o, a, b: eng.binop(st, o, a, b, 32, {})
    w = chacha(key, counter, lambda a, b: op("add", a, b), lambda a, b: op("xor", a, b),
               lambda a, k: op("or", op("shl", a, k), op("lshr", a, 32 - k)))
    r = []
    for v in w:
        for i in range(4):
            k = ks_direct(eng.byte_of(st, v, 4, i))
            r.append(k.pop() if len(k) == 1 else None)
    return r


def concrete(f, env, memo):
    """value of a form when the kernel delivers the given bytes; None: not only of those"""
    if not isinstance(f, F):
        return f
    n = f.c
    for a, k in f.t:
        v = memo.get(a)
        if v is None:
            v = memo[a] = catom(a, env, memo)
        n += v * k
    return n


def catom(a, env, memo):
    if a in KSBIT:
        n, j = KSBIT[a]
        v = memo.get(("ks", n))
        if v is None:
            v = memo["ks", n] = concrete(KS[n][2], env, memo)
        return v >> j & 1
    at = ATOMS[a]
    if at.kind == "div":
        return concrete(at.d[0], env, memo) // at.d[1]
    if at.kind == "uf":
        if at.d[0] == "fb":
            return env.setdefault(at.d[1], random.getrandbits(8))
        v = [concrete(x, env, memo) for x in at.d[1]]
        if at.d[0] == "xor":
            return v[0] ^ v[1]
        if at.d[0] in ("or", "and", "mul"):
            return v[0] | v[1] if at.d[0] == "or" else v[0] & v[1] if at.d[0] == "and" else v[0] * v[1]
    raise LookupError(at.name)


def differs(eng, n, key, blocks):
    """with what the kernel delivers chosen at random, is byte n at no position of the key stream equal to it every time?"""
    M = (1 << 32) - 1
    pos = None
    for t in range(12):
        random.seed(t)
        env, memo = {}, {}
        try:
            v = concrete(KS[n][2], env, memo)
            kw = [concrete(x, env, memo) for x in key]
        except LookupError:
            return False
        ref = []
        for c in range(blocks):
            for w in chacha(kw, c, lambda a, b: a + b & M, lambda a, b: a ^ b, lambda a, k: (a << k | a >> 32 - k) & M):
                ref += w.to_bytes(4, "little")
        hit = {i for i, b in enumerate(ref) if b == v}
        pos = hit if pos is None else pos & hit
        if not pos:
            return True
    return False


def genuine(eng, st, n, blocks):
    """position of byte n in the key stream of the 44 bytes it is computed from (which are such bytes themselves, or the
    kernel's), None if its term is not the reference's and it is not shown to differ"""
    ex = eng.extra = getattr(eng, "extra", None) or {"unproven": 0, "pos": {}, "ref": {}, "keys": 0, "depth": 0}
    if n in ex["pos"]:
        return ex["pos"][n]
    roots = KS[n][0]
    ex["pos"][n] = None
    if len(roots) != 44:
        raise Violation("cipher", "a byte of the output is computed from %d bytes, not from a 32-byte key and a 12-byte nonce" % len(roots), "key size")
    kind = {x < 0 for x in roots}
    if len(kind) != 1:
        raise Violation("cipher", "a key mixes kernel entropy and generator output", "key")
    if kind == {False}:
        if any(ATOMS[x].kind != "uf" or ATOMS[x].d[0] != "fb" for x in roots):
            raise Violation("cipher", "a key is not made of kernel entropy", "key")
        by = [dom.fatom(x) for x in sorted(roots, key=lambda x: ATOMS[x].d[1])]
    else:
        at = {-1 - x: genuine(eng, st, -1 - x, blocks) for x in roots}
        if None in at.values():
            ex["unproven"] += 1
            return None
        by = [F(0, tuple((x, 1 << j) for j, x in enumerate(KS[i][1]))) for i in sorted(at, key=at.get)]
    key = [simp(dom.add(dom.add(by[i], dom.scale(by[i + 1], 256)), dom.add(dom.scale(by[i + 2], 1 << 16), dom.scale(by[i + 3], 1 << 24))))
           for i in range(0, 44, 4)]
    refs = ex["ref"].setdefault(roots, {})
    ex["keys"] += not refs
    while n not in refs and len(refs) < blocks * 64:
        base = len(refs)
        for i, k in enumerate(reference(eng, st, key, base // 64)):
            refs[("none", base + i) if k is None else k] = base + i
            if k is not None and not ex["depth"]:
                ex["depth"] = dom.mixdepth(KS[k][2])
    if n in refs:
        eng.oblige("a generated byte is at its place of the key stream")
        ex["pos"][n] = refs[n]
    elif ex["unproven"] < 20 and dom.mixdepth(KS[n][2]) < 2 * ex["depth"] and differs(eng, n, key, blocks):
        raise Violation("cipher", "a byte of the output is not a byte of the ChaCha20 key stream of its key", "key stream")
    else:
        ex["unproven"] += 1
    return ex["pos"][n]


def out9(eng, st, a, ins, nm):
    n = libc.cnum(eng, st, a[1], 64)
    for i in range(n):
        v = eng.load(st, Ptr(a[0].r, simp(dom.add(a[0].o, i))), 1)
        k = ks_direct(v) if v is not UNDEF else ()
        if len(k) != 1 or isinstance(v, F) and len(v.t) != 8:
            raise Violation("cipher", "byte %d of the output is not a generated byte" % i, "generated")
        k = k.pop()
        if isinstance(k, tuple):
            raise Violation("cipher", "byte %d of the output is raw kernel entropy" % i, "generated")
        genuine(eng, st, k, 8 + n // 64)


@check("R09")
def r09(ctx):
    ctx.rule("value numbering against the ChaCha20 block function of RFC 8439 evaluated in the same domain: every output byte and every "
             "byte a later key is made of has the value number of a byte of the key stream of 44 key bytes, for any kernel bytes")
    for n in [1, 424, 600] + ([8, 64, 425, 467, 468, 511, 512, 513, 1000] if ctx.thorough else []):
        g(ctx, "r05_seq", args=(n,), models=dict(ABORT, vf_out=out9), only=("cipher",))
    for r in ctx.run():
        ex = r["extra"]
        if ex and ex["unproven"]:
            ctx.notes.append("%d generated bytes outside the recognised form" % ex["unproven"])


# ---------------------------------------------------------------- R06
def tick(st):
    n = st.ghost.get("seq", 0) + 1
    st.ghost["seq"] = n
    return n


def fetched(eng, st, tag):
    d = dict(st.ghost.get("fetch", {}))
    d[tag] = (tick(st), st.ghost.get("thread", 0))
    st.ghost["fetch"] = d


def kernel_roots(st, v):
    """kernel bytes a value derives from, and whether anything else is in it"""
    todo = [v]
    seen = set()
    out = set()
    other = []
    for x in dom.roots_of(v):
        seen.add(x)
    stack = list(seen)
    while stack:
        x = stack.pop()
        if x < 0:
            for y in KS[-1 - x][0]:
                if y not in seen:
                    seen.add(y)
                    stack.append(y)
            continue
        at = ATOMS[x]
        if at.kind == "uf" and at.d[0] == "fb":
            out.add(at.d[1])
        else:
            other.append(at.name)
    return out, other


def out6(eng, st, a, ins, nm):
    v = eng.load(st, a[0], 1)
    if v is UNDEF:
        raise Violation("seed", "uninitialised output", "seeded")
    roots, other = kernel_roots(st, v)
    if len(roots) < 16:
        raise Violation("seed", "output computed from %d bytes of kernel entropy" % len(roots), "seeded")
    fe = st.ghost.get("fetch", {})
    last = st.ghost.get("era_at", -1)
    t = st.ghost.get("thread", 0)
    for tag in {r[0] for r in roots}:
        at, th = fe.get(tag, (-1, -1))
        if th != t:
            raise Violation("seed", "output depends on the seed of another thread", "thread")
        if at < last:
            raise Violation("seed", "output depends on a seed older than the last reseed", "era")
    eng.oblige("output derives from a kernel seed of the current era")


def mark6(eng, st, a, ins, nm):
    n = libc.aname(eng, st, a[0])
    if n == "request":
        # a reseed that is complete when the request starts
        st.ghost["era_at"] = st.ghost.get("era_done", -1)
    elif n == "reseed":
        st.ghost["era_done"] = tick(st)
    elif n == "era":
        st.ghost["before"] = {r.id: dict(r.cells) for r in st.mem.values() if r.kind == "global" and not r.const}
    elif n == "era_any":
        # generalise the counter that a reseed advances to any number of reseeds
        bef = st.ghost["before"]
        st.ghost["before"] = None
        k = st.fresh("reseeds", 0, (1 << 32) - 1)
        hits = 0
        for r in list(st.mem.values()):
            if r.kind != "global" or r.const:
                continue
            old = bef.get(r.id)
            if old is None:
                # first touched by the reseed: initial contents
                gl = eng.p.globals.get(r.name, {})
                old = {}
                for off, sz, op in gl.get("init", ()):
                    if op[0] == "i":
                        old[off] = (sz, int(op[2]))
            for o, c in list(r.cells.items()):
                b = old.get(o, (c[0], 0))
                if isinstance(c[1], int) and isinstance(b[1], int) and c[1] != b[1] and c[0] == b[0] == 4:
                    hits += 1
                    w = st.wr(r.id)
                    w.cells[o] = (4, simp(st.cs.mod(dom.add(b[1], dom.scale(k, c[1] - b[1])), 1 << 32)))
        if hits != 1:
            raise PathEnd("no era counter recognised")
        st.ghost["fetch"] = {}
    return None


def entropy(name):
    base = libc.M_BASE[name]

    def f(eng, st, a, ins, nm):
        fr = st.frames[-1]
        rv = base(eng, st, a, ins, nm)
        for tag, n in (("krand", st.natom.get("krand", 0)), ("readbuf", st.natom.get("readbuf", 0))):
            if n and (tag, n - 1) not in st.ghost.get("fetch", {}):
                fetched(eng, st, (tag, n - 1))
        if st.ghost.get("interfere") and not st.ghost.get("interfering"):
            if st.choose(2, "another thread reseeds here") == 1:
                interfere(eng, st, ins, rv)
        return rv
    return f


def interfere(eng, st, ins, rv):
    st.ghost["interfere"] = 0
    st.ghost["interfering"] = True
    if "id" in ins:
        st.frames[-1].regs[ins["id"]] = rv

    def done(eng, st, v):
        st.ghost["interfering"] = False
        st.ghost["era_done"] = st.ghost["era_start"]
        return v
    st.ghost["era_start"] = tick(st)
    eng.push(st, "vf_other_thread", [], None, None, done)


def interf_on(eng, st, a, ins, nm):
    st.ghost["interfere"] = libc.cnum(eng, st, a[0])


def mark6i(eng, st, a, ins, nm):
    mark6(eng, st, a, ins, nm)
    if libc.aname(eng, st, a[0]) == "request" and st.ghost.get("interfere") and st.choose(2, "another thread reseeds before the request") == 1:
        interfere(eng, st, ins, None)


@check("R06")
def r06(ctx):
    ctx.rule("provenance: every output byte derives from at least 16 kernel bytes, all fetched by its own thread after the last "
             "reseed that was complete when the request began; a path whose seeding fails produces no output")
    m = {"vf_out": out6, "vf_mark": mark6, "getrandom": entropy("getrandom"), "read": entropy("read")}
    g(ctx, "r06_first", "r06_reseed", "r06_wrap", models=m, cfg={"max_eintr": 0})
    g(ctx, "r06_threads", models=dict(m, vf_mark=mark6i, vf_interfere=interf_on))


@check("R07")
def r07(ctx):
    ctx.rule("fill loops over every sequence of up to 3 short, interrupted or failing kernel reads: on success no byte of the "
             "buffer is unwritten; errno; descriptor typestate")
    g(ctx, "r07", "r07_ok", cfg={"cipher": False, "atomic_read": False, "max_short": 2, "max_eintr": 1})


# ---------------------------------------------------------------- R08
def shuffled(eng, st, a, ins, nm):
    if libc.aname(eng, st, a[0]) != "shuffled":
        return None
    n, size = libc.cnum(eng, st, a[2], 64), libc.cnum(eng, st, a[3], 64)
    r = libc.snum(eng, st, a[4])
    failed = not isinstance(r, int) or r < 0
    if failed and st.decide(("lt", dom.toF(r))) is not True:
        return None
    p = a[1]

    def orig(i):
        rg = st.mem[p.r]
        return tuple(eng.dflt(st, rg, i * size + j) for j in range(size))
    el = [tuple(simp(eng.load(st, Ptr(p.r, i * size + j), 1)) for j in range(size)) for i in range(n)]
    og = [orig(i) for i in range(n)]
    if failed:
        if el != og:
            raise Violation("shuffle", "a failed shuffle changes the array", "unchanged")
        eng.oblige("a failed shuffle leaves the array unchanged")
        return None
    if size and sorted(map(repr, el)) != sorted(map(repr, og)):
        raise Violation("shuffle", "the shuffled array is not a permutation of the original", "permutation")
    eng.oblige("the shuffled array is a permutation")
    if size and n:
        perm = tuple(og.index(x) for x in el)
        ex = eng.extra = getattr(eng, "extra", None) or {}
        ex.setdefault(n, {})
        ex[n][perm] = ex[n].get(perm, 0) + 1
    return None


@check("R08")
def r08(ctx):
    ctx.rule("array contents after every combination of draws are a permutation of the element tuples; every write inside the "
             "array; scratch freed; every permutation reachable")
    for size in (0, 1, 3, 8, 9, 16, 300):
        g(ctx, "r08", args=(size,), models=dict(ABORT, vf_mark=shuffled), cfg={"enum_ptr": 16, "max_same_split": 4})
    g(ctx, "r08_arg", "r08_bounds", models=ABORT, cfg={"max_same_split": 10})
    for r in ctx.run():
        for n, ps in (r["extra"] or {}).items():
            full = 1
            for i in range(2, n + 1):
                full *= i
            if len(ps) != full:
                ctx.violate("src/random.c", "%s: of the %d orders of %d elements only %d are reachable" % (r["entry"], full, n, len(ps)),
                            kind="shuffle", ident="reachable orders")
