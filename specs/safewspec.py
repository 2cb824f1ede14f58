"""Safe writes (F01-F05): abstract file system.

names   ghost["fs"] = {name: inode number or None}
inodes  ghost[("ino", n)] = (content, durable content or None, closed well)
streams region of kind "FILE" + ghost[("F", region)] = (inode, mode, pos, buffered bytes, error, fd)

Content is a tuple of byte forms.  Names and sizes survive a crash in the order
they were changed (journalled metadata); data that was not synced may be lost
in whole or in part."""
from vsa import dom, libc
from vsa.dom import F, sub, add, simp
from vsa.engine import Ptr, UNDEF, Unsupported, Violation
from vsa.libc import s32
from vsa.run import check

MODES = {b"r": "r", b"w": "w", b"rb": "r", b"wb": "w", b"re": "r", b"we": "w", b"rbe": "r", b"wbe": "w"}


def name_of(eng, st, p, what):
    segs = libc.segs_at(eng, st, p)
    if segs is None:
        if eng.cfg.get("fs_lazy"):
            raise Violation("spec", "%s of a name which is not one of the exact names derived from the path" % what, "names")
        raise Unsupported("path of %s" % what)
    out = []
    for s in segs:
        if s[0] == "lit":
            if out and out[-1].__class__ is bytes:
                out[-1] += s[1]
            else:
                out.append(s[1])
        else:
            out.append((s[0], s[1], repr(s[2])))
    n = tuple(out)
    base = st.ghost.get("base")
    if base is not None and n and n not in derived(base):
        raise Violation("spec", "%s of a name which is not one of the exact names derived from the path" % what, "names")
    return n


def suffixed(base, suf):
    if not suf:
        return base
    if base and base[-1].__class__ is bytes:
        return base[:-1] + (base[-1] + suf,)
    return base + (suf,)


def derived(base):
    return [suffixed(base, s) for s in (b"", b".tmp", b".crc", b".crc.tmp")]


def lookup(eng, st, n):
    fs = st.ghost.get("fs", {})
    if n not in fs and eng.cfg.get("fs_lazy") and n:
        if st.choose(2, "file exists"):
            return new_ino(st, n, tuple(st.fresh("content", 0, 255) for i in range(4)))
        bind(st, n, None)
    return st.ghost.get("fs", {}).get(n)


def bind(st, n, ino):
    fs = dict(st.ghost.get("fs", {}))
    fs[n] = ino
    st.ghost["fs"] = fs


def new_ino(st, n, content=(), durable=None):
    k = st.ghost.get("inos", 0) + 1
    st.ghost["inos"] = k
    st.ghost[("ino", k)] = (content, durable, True)
    bind(st, n, k)
    return k


def ino_set(st, k, content=None, durable=False, ok=None):
    c = st.ghost[("ino", k)]
    st.ghost[("ino", k)] = (c[0] if content is None else content, c[1] if durable is False else durable, c[2] if ok is None else ok)


def stream(eng, st, p, what):
    if not isinstance(p, Ptr):
        eng.check(st, p, 1, what)
    r = st.mem.get(p.r)
    if r is None or r.kind != "FILE":
        raise Violation("stream", "%s on something that is not a stream" % what)
    if not r.alive:
        raise Violation("stream", "%s on a closed stream" % what)
    return r.id, st.ghost[("F", r.id)]


def noent(eng, st):
    libc.set_errno(eng, st, 2)


def hook(eng, st, what):
    h = eng.cfg.get("fs_hook")
    if h:
        h(eng, st, what)


def crash(eng, st, what):
    """may the system stop here?  True when the path goes on after the restart"""
    left = st.ghost.get("crashes", 0)
    if not left or "catch" not in st.ghost:
        return False
    if st.choose(2, "crash before " + what) == 0:
        return False
    lost = []
    for n, k in sorted(st.ghost.get("fs", {}).items(), key=repr):
        if k is None:
            continue
        c, d, ok = st.ghost[("ino", k)]
        if d is not None and len(d) == len(c) and all(x is y or x == y for x, y in zip(c, d)):
            continue
        v = st.choose(4 if c else 1, "data of an unsynced file")
        # as written / cut short / nothing / something else
        t = c if v == 0 else c[:-1] if v == 1 else () if v == 2 else tuple(st.fresh("garbage", 0, 255) for _ in c)
        lost.append((k, t))
    st.ghost["crashes"] = left - 1
    for k, t in lost:
        ino_set(st, k, t)
    for n, k in st.ghost.get("fs", {}).items():
        if k is not None:
            ino_set(st, k, durable=st.ghost[("ino", k)][0], ok=True)
    for r in list(st.mem.values()):
        if r.alive and r.kind in ("heap", "FILE"):
            st.wr(r.id).alive = False
    for k, v in list(st.ghost.items()):
        if k.__class__ is tuple and k[0] == "fd" and v[2]:
            st.ghost[k] = (v[0], v[1], False, v[3], v[4])
    depth, fr, n = st.ghost["catch"]
    for x in st.frames[depth:]:
        for al in x.allocas:
            st.wr(al).alive = False
    fr2 = fr.clone()
    st.ghost["catch"] = (depth, fr, n + 1)
    ins = fr2.fn["blocks"][fr2.blk][fr2.idx]
    fr2.regs[ins["id"]] = n + 1
    fr2.idx += 1
    del st.frames[depth - 1:]
    st.frames.append(fr2)
    st.event("crash", what)
    return True


def catch(eng, st, a, ins, nm):
    st.ghost["catch"] = (len(st.frames), st.frames[-1].clone(), 0)
    return 0


def fopen(eng, st, a, ins, nm):
    n = name_of(eng, st, a[0], nm)
    mode = MODES.get(eng.cstr(st, a[1]))
    if mode is None:
        raise Unsupported("stream mode")
    ino = lookup(eng, st, n)
    if mode == "w" and crash(eng, st, nm):
        return None
    st.event("fopen", n, mode, eng.loc(st))
    if mode == "r" and ino is None:
        noent(eng, st)
        return 0
    if st.choose(2, nm) == 1:
        libc.fail(eng, st, nm)
        return 0
    if mode == "w":
        if ino is None:
            ino = new_ino(st, n)
        ino_set(st, ino, (), None, False)
    k, fd = libc.new_fd(eng, st, "FILE", ("ino", ino))
    r = st.region("FILE", 16, "FILE", "sym", site=eng.loc(st))
    st.ghost[("F", r.id)] = (ino, mode, 0, (), False, k)
    hook(eng, st, nm)
    return Ptr(r.id, 0)


def flush(eng, st, rid, x, nm):
    """write out what is buffered; the outcome was chosen by the caller"""
    ino, mode, pos, buf, err, fd = x
    if buf:
        ino_set(st, ino, st.ghost[("ino", ino)][0] + buf, ok=False)
    st.ghost[("F", rid)] = (ino, mode, pos, (), err, fd)


def fclose(eng, st, a, ins, nm):
    rid, x = stream(eng, st, a[0], nm)
    bad = st.choose(2, nm) == 1
    if bad:
        libc.fail(eng, st, nm)
        # what was still buffered is lost
    else:
        flush(eng, st, rid, x, nm)
    if x[1] == "w":
        ino_set(st, x[0], ok=not bad)
    st.wr(rid).alive = False
    f = st.ghost[("fd", x[5])]
    if not f[2]:
        raise Violation("doubleclose", "the stream's descriptor was already closed")
    st.ghost[("fd", x[5])] = (f[0], f[1], False, f[3], f[4])
    st.event("fclose", x[0], eng.loc(st))
    hook(eng, st, nm)
    return s32(-1) if bad else 0


def fflush(eng, st, a, ins, nm):
    rid, x = stream(eng, st, a[0], nm)
    if st.choose(2, nm) == 1:
        libc.fail(eng, st, nm)
        st.ghost[("F", rid)] = x[:3] + ((), True, x[5])
        return s32(-1)
    flush(eng, st, rid, x, nm)
    return 0


def fileno(eng, st, a, ins, nm):
    rid, x = stream(eng, st, a[0], nm)
    return s32(st.ghost[("fd", x[5])][0])


def fsync(eng, st, a, ins, nm):
    k, x, f = libc.use_fd(eng, st, a[0], nm)
    if crash(eng, st, nm):
        return None
    if st.choose(2, nm) == 1:
        libc.fail(eng, st, nm)
        return s32(-1)
    if x and x[3] and x[3][0] == "ino":
        k = x[3][1]
        ino_set(st, k, durable=st.ghost[("ino", k)][0])
    return 0


def fwrite(eng, st, a, ins, nm):
    sz, n = libc.unum(eng, st, a[1]), libc.unum(eng, st, a[2])
    if isinstance(sz, F) or isinstance(n, F):
        raise Unsupported("fwrite of a symbolic amount")
    rid, x = stream(eng, st, a[3], nm)
    eng.check(st, a[0], sz * n, "fwrite() source")
    if x[1] != "w":
        raise Violation("stream", "fwrite on a stream opened for reading")
    if sz * n == 0:
        return 0
    got = n
    if st.choose(2, nm) == 1:
        libc.fail(eng, st, nm)
        got = 0 if n == 1 else (0, n - 1)[st.choose(2, "items written")]
    b = []
    for i in range(got * sz):
        v = eng.load(st, Ptr(a[0].r, add(a[0].o, i)), 1)
        if v is UNDEF:
            raise Violation("uninit", "uninitialised data written to a file")
        b.append(v)
    st.ghost[("F", rid)] = x[:3] + (x[3] + tuple(b), x[4] or got != n, x[5])
    st.event("fwrite", x[0], a[0], sz, n, got)
    return got


def vfprintf(eng, st, a, ins, nm):
    rid, x = stream(eng, st, a[0], nm)
    f = eng.cstr(st, a[1])
    if st.choose(2, nm) == 1:
        libc.fail(eng, st, nm)
        st.ghost[("F", rid)] = x[:4] + (True, x[5])
        st.event("vfprintf", f, None)
        return s32(-1)
    b = tuple(st.fresh("formatted", 0, 255) for i in range(2))
    st.ghost[("F", rid)] = x[:3] + (x[3] + b, x[4], x[5])
    st.event("vfprintf", f, b)
    return 2


def fread(eng, st, a, ins, nm):
    sz, n = libc.unum(eng, st, a[1]), libc.unum(eng, st, a[2])
    if isinstance(sz, F) or isinstance(n, F):
        raise Unsupported("fread of a symbolic amount")
    rid, x = stream(eng, st, a[3], nm)
    eng.check(st, a[0], sz * n, "fread() destination")
    c = st.ghost[("ino", x[0])][0]
    left = max(0, len(c) - x[2])
    if sz * n == 0:
        return 0
    err = left and st.choose(2, nm) == 1
    if err:
        libc.fail(eng, st, nm)
        left = 0
    m = min(left, sz * n)
    for i in range(m):
        eng.store(st, Ptr(a[0].r, add(a[0].o, i)), 1, c[x[2] + i])
    st.ghost[("F", rid)] = (x[0], x[1], x[2] + m, x[3], x[4] or bool(err), x[5])
    return m // sz


def getc(eng, st, a, ins, nm):
    rid, x = stream(eng, st, a[0], nm)
    c = st.ghost[("ino", x[0])][0]
    if x[2] >= len(c):
        return s32(-1)
    if st.choose(2, nm) == 1:
        libc.fail(eng, st, nm)
        st.ghost[("F", rid)] = (x[0], x[1], x[2], x[3], True, x[5])
        return s32(-1)
    st.ghost[("F", rid)] = (x[0], x[1], x[2] + 1, x[3], x[4], x[5])
    return c[x[2]]


def ferror(eng, st, a, ins, nm):
    return 1 if stream(eng, st, a[0], nm)[1][4] else 0


def feof(eng, st, a, ins, nm):
    x = stream(eng, st, a[0], nm)[1]
    return 1 if x[2] >= len(st.ghost[("ino", x[0])][0]) and not x[4] else 0


def rewind(eng, st, a, ins, nm):
    rid, x = stream(eng, st, a[0], nm)
    st.ghost[("F", rid)] = (x[0], x[1], 0, x[3], False, x[5])
    return None


def rename(eng, st, a, ins, nm):
    o, n = name_of(eng, st, a[0], nm), name_of(eng, st, a[1], nm)
    ino = lookup(eng, st, o)
    if crash(eng, st, nm):
        return None
    if ino is None or not n:
        noent(eng, st)
        return s32(-1)
    if st.choose(2, nm) == 1:
        libc.fail(eng, st, nm)
        return s32(-1)
    bind(st, n, ino)
    if o != n:
        bind(st, o, None)
    st.event("rename", o, n, eng.loc(st))
    hook(eng, st, nm)
    return 0


def unlink(eng, st, a, ins, nm):
    n = name_of(eng, st, a[0], nm)
    ino = lookup(eng, st, n)
    if ino is None:
        noent(eng, st)
        return s32(-1)
    if crash(eng, st, nm):
        return None
    if st.choose(2, nm) == 1:
        libc.fail(eng, st, nm)
        return s32(-1)
    bind(st, n, None)
    st.event("unlink", n, eng.loc(st))
    hook(eng, st, nm)
    return 0


def access(eng, st, a, ins, nm):
    if lookup(eng, st, name_of(eng, st, a[0], nm)) is None:
        noent(eng, st)
        return s32(-1)
    return 0


# ---------------------------------------------------------------- vocabulary of the drivers
def cname(eng, st, p):
    return (eng.cstr(st, p),)


def content(st, n):
    k = st.ghost.get("fs", {}).get(n)
    return None if k is None else st.ghost[("ino", k)][0]


def settle(eng, st, a, ins, nm):
    for n, k in st.ghost.get("fs", {}).items():
        if k is not None:
            ino_set(st, k, durable=st.ghost[("ino", k)][0], ok=True)


def fs_copy(eng, st, a, ins, nm):
    c = content(st, cname(eng, st, a[1]))
    cut = libc.cnum(eng, st, a[2])
    if cut < 0:
        # one bit is different
        i = -1 - cut
        b = c[i] ^ (1 << (i * 7 % 8))
        c = c[:i] + (b,) + c[i + 1:]
        cut = 0
    new_ino(st, cname(eng, st, a[0]), c[:len(c) - cut] if cut else c)


def fs_clear(eng, st, a, ins, nm):
    bind(st, cname(eng, st, a[0]), None)


def crashes(eng, st, a, ins, nm):
    st.ghost["crashes"] = libc.cnum(eng, st, a[0])


def version(eng, st, a, ins, nm):
    n = cname(eng, st, a[0])
    st.ghost[("version", libc.cnum(eng, st, a[1]))] = (content(st, n), content(st, suffixed(n, b".crc")))


def same(st, x, y):
    return x is not None and y is not None and len(x) == len(y) and \
        all(p is q or st.decide(("eq", dom.toF(sub(p, q)))) is True for p, q in zip(x, y))


def collided(eng, st):
    """did the path assume that two CRCs of different contents are the same?"""
    t = st.trace
    while t is not None:
        c = t[1][1]
        if c.__class__ is tuple and c[0].__class__ is tuple and c[1] == (c[0][0] == "eq") and c[0][0] in ("eq", "ne"):
            if any(dom.ATOMS[x].kind != "in" for x, _ in c[0][1].t):
                return True
        t = t[0]
    return False


def versions(st):
    return [st.ghost[("version", i)] for i in (0, 1) if ("version", i) in st.ghost]


TMPS = (b".tmp", b".crc.tmp")


def recovered(eng, st, a, ins, nm):
    n = cname(eng, st, a[0])
    r = libc.snum(eng, st, a[1])
    how = [e for e in st.events() if e[0] in ("crash", "fail")]
    how = "after " + ", ".join("a crash before %s" % e[1] if e[0] == "crash" else "%s failed (%s)" % (e[1], e[3]) for e in how) if how else "undisturbed"
    if collided(eng, st):
        return
    if not st.truth(("eq", dom.toF(r))):
        raise Violation("spec", "%s, the check finds no valid version" % how, "recovery")
    p, c = content(st, n), content(st, suffixed(n, b".crc"))
    if not any(same(st, p, v[0]) and same(st, c, v[1]) for v in versions(st)):
        raise Violation("spec", "%s, the check leaves neither the complete old nor the complete new version" % how, "recovered version")
    eng.oblige("the check finds a complete version")
    for s in TMPS:
        if content(st, suffixed(n, s)) is not None:
            raise Violation("spec", "%s, the check leaves '%s'" % (how, s.decode()), "temporary files")


def checked(eng, st, a, ins, nm):
    n = cname(eng, st, a[0])
    r = libc.snum(eng, st, a[1])
    if collided(eng, st):
        return
    init = st.ghost["initial"]

    def pair(x, y):
        p, c = init.get(x), init.get(y)
        return p if any(same(st, p, v[0]) and same(st, c, v[1]) for v in versions(st)) else None
    have = frozenset(k for k in ("p", "t", "c", "tc") if init.get(k) is not None)
    table = {frozenset("p c".split()): [("p", "c")], frozenset("p t c".split()): [("p", "c")],
             frozenset("p tc".split()): [("p", "tc")], frozenset("t tc".split()): [("t", "tc")],
             frozenset("p t tc".split()): [("t", "tc")], frozenset("p c tc".split()): [("p", "c"), ("p", "tc")],
             frozenset("t c tc".split()): [("t", "tc")], frozenset("p t c tc".split()): [("t", "tc"), ("p", "c")]}
    valid = [q for q in (pair(*x) for x in table.get(have, ())) if q is not None]
    what = "with " + (", ".join({"p": "payload", "t": "payload.tmp", "c": "crc", "tc": "crc.tmp"}[k] for k in sorted(have)) or "no file")
    p, c = content(st, n), content(st, suffixed(n, b".crc"))
    for s in TMPS:
        if content(st, suffixed(n, s)) is not None:
            raise Violation("spec", "%s, '%s' is left" % (what, s.decode()), "temporary files")
    if st.truth(("eq", dom.toF(r))):
        if not any(same(st, p, v[0]) and same(st, c, v[1]) for v in versions(st)):
            raise Violation("spec", "%s, the check succeeds without a matching payload and CRC" % what, "accepted")
        if valid and not same(st, p, valid[0]):
            raise Violation("spec", "%s, the newest valid version is not the one kept" % what, "kept version")
        eng.oblige("what is accepted is a matching pair")
    else:
        if not st.truth(("eq", dom.toF(add(r, 1)))):
            raise Violation("spec", "%s, the result is %r" % (what, r), "result")
        if valid:
            raise Violation("spec", "%s, a valid pair is discarded" % what, "discarded")
        if p is not None or c is not None:
            raise Violation("spec", "%s, the check fails and leaves a file" % what, "removed")
        eng.oblige("what is refused has no valid pair and is removed")


def checked_fault(eng, st, a, ins, nm):
    """what holds when calls of the check fail: success still means a matching pair, and no other payload is left"""
    n = cname(eng, st, a[0])
    r = libc.snum(eng, st, a[1])
    if collided(eng, st):
        return
    p, c = content(st, n), content(st, suffixed(n, b".crc"))
    good = any(same(st, p, v[0]) and same(st, c, v[1]) for v in versions(st))
    if st.truth(("eq", dom.toF(r))):
        if not good:
            raise Violation("spec", "when a call fails, the check succeeds without a matching payload and CRC", "accepted")
        eng.oblige("what is accepted is a matching pair although a call failed")
    else:
        if not st.truth(("eq", dom.toF(add(r, 1)))):
            raise Violation("spec", "when a call fails, the result is %r" % (r,), "result")
        if libc.cnum(eng, st, a[2]) == 2 and not good and p is not None:
            raise Violation("spec", "when a rename fails, the check fails and leaves a payload without its CRC", "removed")
        eng.oblige("failure of a call is reported and no unverified payload is kept")


def settle_f03(eng, st, a, ins, nm):
    settle(eng, st, a, ins, nm)
    n = (b"/d/f",)
    st.ghost["initial"] = {"p": content(st, n), "t": content(st, suffixed(n, b".tmp")), "c": content(st, suffixed(n, b".crc")),
                           "tc": content(st, suffixed(n, b".crc.tmp"))}


def distinct(eng, st, a, ins, nm):
    x, y = (content(st, suffixed(cname(eng, st, p), b".crc")) for p in a[:2])
    if not x or not y or len(x) != 4 or len(y) != 4:
        raise Violation("spec", "a CRC file does not hold 4 bytes", "crc size")
    # no equality of payload bytes is assumed here
    if same(st, x, y):
        raise Violation("spec", "payloads %s and %s always have the same CRC" % tuple(cname(eng, st, p)[0].decode() for p in a[:2]), "crc")
    eng.oblige("the CRC depends on every byte and on the length")


# F01
def target(eng, st, a, ins, nm):
    n = cname(eng, st, a[0])
    k = st.ghost.get("fs", {}).get(n)
    st.ghost["target"] = (n, k, None if k is None else st.ghost[("ino", k)][0], len(st.events()))
    st.ghost["intent"] = ()
    st.ghost["bad"] = False


def wrote(eng, st, a, ins, nm):
    sz, n, r = (libc.unum(eng, st, x) for x in a[1:4])
    if r != n:
        st.ghost["bad"] = True
        return
    st.ghost["intent"] += tuple(eng.load(st, Ptr(a[0].r, add(a[0].o, i)), 1) for i in range(sz * n))


def printed(eng, st, a, ins, nm):
    r = libc.snum(eng, st, a[1])
    v = [e for e in st.events() if e[0] == "vfprintf"]
    f = eng.cstr(st, a[0])
    if not v or v[-1][1] != f:
        raise Violation("spec", "the text is not the one asked for", "text")
    if st.truth(("ge", dom.toF(r))):
        if v[-1][2] is None or st.decide(("eq", dom.toF(sub(r, len(v[-1][2]))))) is not True:
            raise Violation("spec", "the number of characters is not reported", "count")
        st.ghost["intent"] += v[-1][2]
    else:
        st.ghost["bad"] = True


def invariant(eng, st, what):
    t = st.ghost.get("target")
    if t is None:
        return
    n, old, oc, _ = t
    k = st.ghost.get("fs", {}).get(n)
    if k == old:
        if k is not None and not same(st, st.ghost[("ino", k)][0], oc):
            raise Violation("spec", "%s changes the content of the target in place" % what, "target changed")
        return
    if k is None:
        raise Violation("spec", "%s removes the target" % what, "target removed")
    c, d, ok = st.ghost[("ino", k)]
    if st.ghost["bad"]:
        raise Violation("spec", "the target is replaced though a write failed", "failed write")
    if not same(st, c, st.ghost["intent"]):
        raise Violation("spec", "the target is replaced by content which is not what was written", "complete content")
    if d is None or not same(st, c, d):
        raise Violation("spec", "the target is replaced by content which is not yet durable", "durable content")
    if not ok:
        raise Violation("spec", "the target is replaced before the new file was closed without error", "closed")
    eng.oblige("the target is either the old or the complete, durable new content")


def closed(eng, st, a, ins, nm):
    kind = libc.cnum(eng, st, a[0])
    r = libc.snum(eng, st, a[1])
    n, old, oc, at = st.ghost["target"]
    new = st.ghost.get("fs", {}).get(n) != old
    ok = st.truth(("eq", dom.toF(r)))
    fs = [e for e in st.events()[at:] if e[0] == "fail"]
    if not ok and not st.truth(("eq", dom.toF(add(r, 1)))):
        raise Violation("spec", "the result is %r" % (r,), "result")
    if kind >= 2:
        if new:
            raise Violation("spec", "a rollback or a failed open replaces the target", "rollback")
        if kind == 2 and not ok and not [e for e in fs if e[1] in ("fclose", "unlink")]:
            raise Violation("spec", "a rollback fails though nothing failed", "rollback result")
        if kind == 2 and ok and st.ghost["fs"].get(suffixed(n, b".tmp")) is not None:
            raise Violation("spec", "a rollback leaves the temporary file", "rollback removes")
        return
    if ok and not new:
        raise Violation("spec", "success is reported, but the target has its old content", "committed")
    if not ok and new and not (kind == 1 and [e for e in fs if e[1] == "rename"]):
        raise Violation("spec", "a failure is reported, but the target was replaced", "failed commit")
    if not ok and not fs and not st.ghost["bad"]:
        raise Violation("spec", "a failure is reported though nothing failed", "spurious failure")
    if ok and kind == 1:
        c = st.ghost["fs"].get(suffixed(n, b".crc"))
        if c is None or st.ghost[("ino", c)][1] is None or not same(st, *st.ghost[("ino", c)][:2]) or not st.ghost[("ino", c)][2]:
            raise Violation("spec", "success is reported though the CRC is not durable", "durable crc")
    eng.oblige("the result says whether the target was replaced")


def names(eng, st, a, ins, nm):
    if "base" not in st.ghost:
        L = libc.segs_at(eng, st, a[0])
        st.ghost["base"] = tuple((s[0], s[1], repr(s[2])) for s in L)
    eng.oblige("only the names derived from the path are used")


def present(eng, st, a, ins, nm):
    """success is only reported for a file that is there: not for a name which was refused"""
    if st.truth(("eq", dom.toF(libc.snum(eng, st, a[0])))):
        if st.ghost.get("fs", {}).get(st.ghost["base"]) is None:
            raise Violation("spec", "success is reported though no file of this name was found or made", "refused")
        eng.oblige("success means that the file of this name is there")


M = {"vf_catch": catch, "fopen": fopen, "fopen64": fopen, "fclose": fclose, "fflush": fflush, "fileno": fileno, "fsync": fsync,
     "fdatasync": fsync, "fwrite": fwrite, "vfprintf": vfprintf, "fread": fread, "getc": getc, "fgetc": getc, "ferror": ferror, "feof": feof,
     "rewind": rewind, "rename": rename, "unlink": unlink, "remove": unlink, "access": access, "vf_settle": settle, "vf_fs_copy": fs_copy,
     "vf_fs_clear": fs_clear, "vf_crashes": crashes, "vf_version": version, "vf_recovered": recovered, "vf_checked": checked, "vf_checked_fault": checked_fault,
     "vf_distinct": distinct, "vf_target": target, "vf_wrote": wrote, "vf_printed": printed, "vf_closed": closed, "vf_names": names, "vf_present": present}
for v in ("va_start", "va_end"):
    for x in ("llvm." + v, "llvm." + v + ".p0"):
        M[x] = lambda eng, st, a, ins, nm: None


def g(ctx, e, models=None, cfg=None, **kw):
    p = ctx.prog(harness=("safew.c",))
    m = dict(M)
    m.update(models or {})
    c = {"max_site_fail": 3, "max_paths": 100000}
    c.update(cfg or {})
    ctx.add(p, e, models=m, cfg=c, label="%s %s" % (e, kw.get("args", ())), **kw)


@check("F01")
def f01(ctx):
    for kind in (0, 1, 2):
        for nw in range(3 if ctx.thorough else 2):
            g(ctx, "f01", args=(kind, nw), cfg={"fs_hook": invariant})
    g(ctx, "f01", args=(0, 2), cfg={"fs_hook": invariant})


@check("F02")
def f02(ctx):
    g(ctx, "f02_crash", args=(4 if ctx.thorough else 3,))
    g(ctx, "f02_fault")


@check("F03")
def f03(ctx):
    for p in range(3):
        for t in range(3):
            for known in (0, 1):
                g(ctx, "f03_table", args=(p, t, known), models={"vf_settle": settle_f03})
    g(ctx, "f03_crc")
    for k in (0, 2):
        for p in range(3):
            for t in range(3):
                for c in range(3):
                    g(ctx, "f03_fault", args=(k, p, t, c), models={"vf_settle": settle_f03})


@check("F04")
def f04(ctx):
    for k in range(3):
        g(ctx, "f04_write", args=(k,))
    for k in range(16):
        g(ctx, "f04_check", args=(k,))
    g(ctx, "f04_null")


def nofault(eng, st):
    st.ghost["nofault"] = True


@check("F05")
def f05(ctx):
    for k in range(3):
        g(ctx, "f05_write", args=(k,), cfg={"fs_lazy": True})
    g(ctx, "f05_check", init=nofault, cfg={"fs_lazy": True})
