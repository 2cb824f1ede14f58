from vsa import dom, libc
from vsa.dom import sub, add, simp
from vsa.engine import Ptr, Violation
from vsa.libc import i64, s32
from vsa.run import check

O_DIRECTORY = 0o200000
SLASH = b"/"


def fails(st, but=("close", "closedir")):
    return [e for e in st.events() if e[0] == "fail" and e[1] not in but]


def is_errno(eng, st, ret, fs):
    """is a negative result the errno of one of these failures"""
    for e in fs:
        if st.decide(("eq", dom.toF(add(ret, e[2])))) is True:
            return e
    return None


def minus(st, ret, n):
    return st.decide(("eq", dom.toF(add(ret, n)))) is True


# ---------------------------------------------------------------- Y01
def same_path(st, a, b):
    if a is None or b is None or len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x[0] != y[0] or x[1] != y[1]:
            return False
        if x[0] != "lit" and st.decide(("eq", dom.toF(sub(x[2], y[2])))) is not True:
            return False
    return True


def synced(eng, st, a, ins, nm):
    ret = libc.snum(eng, st, a[0])
    want = [None if libc.isnull(eng, st, p) else libc.segs_at(eng, st, p) for p in a[1:4]]
    done = [(e[2], e[3]) for e in st.events() if e[0] == "synced" and e[2] is not None]

    for e in st.events():
        if e[0] == "open" and isinstance(e[2], int) and e[2] & 0o1100:
            raise Violation("spec", "what is to be synced is opened with O_CREAT or O_TRUNC", "open flags")
        if e[0] == "open" and isinstance(e[2], int) and e[2] & 3:
            raise Violation("spec", "what is to be synced is opened for writing, which a folder or a read-only file refuses", "open mode")

    def is_done(path, folder):
        for d, how in done:
            if not d or not same_path(st, d[0], path):
                continue
            if how == "fdatasync" and (folder or True):
                continue        # the metadata of the file is part of what was asked for
            if folder and not (d[1] or 0) & O_DIRECTORY and not (path and path[-1][0] == "lit" and path[-1][1].endswith(SLASH)):
                continue
            return True
        return False

    if not st.truth(("ge", dom.toF(ret))):
        fs = fails(st)
        if is_errno(eng, st, ret, fs):
            eng.oblige("an error is the errno of a failing call")
            return
        noslash = want[0] is not None and want[1] is not None and want[0][0][0] == "lit" and SLASH not in want[0][0][1]
        if noslash and minus(st, ret, 22):
            eng.oblige("a path without folder is refused")
            return
        raise Violation("spec", "the call fails with %s, which is no failing call's error" % (ret,), "error value")
    if st.decide(("eq", dom.toF(ret))) is not True and st.truth(("ge", dom.toF(sub(ret, 1)))):
        raise Violation("spec", "success is not 0", "success value")
    if want[0] is not None:
        if not is_done(want[0], False):
            raise Violation("spec", "success is reported though the file was not synced", "file synced")
        eng.oblige("success means that the file was synced")
    if want[1] is not None:
        if not (is_done(want[1], True) or is_done(want[2], True)):
            raise Violation("spec", "success is reported though the folder was not synced", "folder synced")
        eng.oblige("success means that the folder was synced")


@check("Y01")
def y01(ctx):
    p = ctx.prog(harness=("files.c",))
    m = {"vf_synced": synced}
    for k in (-1, 0, 1):
        ctx.add(p, "y01_file", args=(k,), models=m, label="sync_file %d" % k)
        ctx.add(p, "y01_folder", args=(k,), models=m, label="sync_folder %d" % k)
    for k in range(9):
        ctx.add(p, "y01_both", args=(k,), models=m, label="sync_file_and_folder %d" % k)
    ctx.add(p, "y01_null", models=m)


# ---------------------------------------------------------------- X01
# What a directory holds is decided the first time it is listed, entry by
# entry: ghost ("ents", path) = tuple of (name, type), "end" last when the list
# is complete.
TYPES = {"reg": (0o100644, 8), "dir": (0o040755, 4), "lnk": (0o120777, 10), "fifo": (0o010644, 1)}
NAMES = ["a", ".b", "..c", "d e"]


def norm(b):
    s = b.decode("latin1")
    while "//" in s:
        s = s.replace("//", "/")
    if len(s) > 1 and s.endswith("/"):
        s = s[:-1]
    return s


def text(eng, st, p, what):
    b = eng.cstr(st, p, 9000)
    if b is None:
        from vsa.engine import Unsupported
        raise Unsupported("path of %s" % what)
    return b


def opendir(eng, st, a, ins, nm):
    b = text(eng, st, a[0], nm)
    if len(b) > 4095:
        libc.fail(eng, st, nm, val=36)
        return 0
    p = norm(b)
    root = st.ghost.setdefault("root", p)
    if p != root and not known(st, p):
        raise Violation("spec", "opendir('%s'), which is neither the directory asked for nor an entry of it" % p[-60:], "what is opened")
    if st.choose(2, nm) == 1:
        libc.fail(eng, st, nm)
        return 0
    if p != root and known(st, p)[1] not in ("dir", "lnk"):
        libc.fail(eng, st, nm, val=20)
        return 0
    r = st.region("DIR", 16, "dir", "sym", site=eng.loc(st))
    st.ghost[("dirpos", r.id)] = (p, 0, None)
    return Ptr(r.id, 0)


def known(st, p):
    d, _, n = p.rpartition("/")
    for x in st.ghost.get(("ents", d or "/"), ()):
        if x != "end" and x[0] == n:
            return x
    return None


def readdir(eng, st, a, ins, nm):
    r = libc.dirp(eng, st, a[0], nm)
    p, k, rec = st.ghost[("dirpos", r.id)]
    if st.choose(2, nm) == 1:
        libc.fail(eng, st, nm)
        return 0
    es = st.ghost.get(("ents", p), ())
    if k >= len(es):
        root = st.ghost["root"]
        depth = 0 if p == root else p[len(root):].strip("/").count("/") + 1
        n = sum(1 for e in es if e[0] not in (".", ".."))
        opts = ["end"]
        if n < eng.cfg["max_entries"][depth]:
            for t in ("reg", "dir", "lnk", "fifo"):
                if t != "dir" or depth + 1 < len(eng.cfg["max_entries"]):
                    opts.append((NAMES[(n + depth) % len(NAMES)], t))
        if not es:
            opts += [(".", "dir")]
        elif es[-1] == (".", "dir"):
            opts += [("..", "dir")]
        e = opts[st.choose(len(opts), "entry")]
        es = es + (e,)
        st.ghost[("ents", p)] = es
    e = es[k]
    if e == "end":
        st.event("dirend", p)
        return 0
    # one object per stream, overwritten by the next call
    if rec is None:
        g = st.region("dirent", 280, "dirent", "sym", site=eng.loc(st))
        rec = g.id
    st.ghost[("dirpos", r.id)] = (p, k + 1, rec)
    b = e[0].encode() + b"\0"
    # a file system either tells the types or does not
    dtype = st.ghost.get("d_type")
    if dtype is None:
        dtype = st.ghost["d_type"] = st.choose(2, "d_type")
    eng.store(st, Ptr(rec, 18), 1, TYPES[e[1]][1] if dtype else 0)
    for i, c in enumerate(b):
        eng.store(st, Ptr(rec, 19 + i), 1, c)
    for i in range(len(b), 12):
        eng.store(st, Ptr(rec, 19 + i), 1, st.fresh("after", 0, 255))
    return Ptr(rec, 0)


def closedir(eng, st, a, ins, nm):
    r = libc.dirp(eng, st, a[0], nm)
    st.wr(r.id).alive = False
    rec = st.ghost[("dirpos", r.id)][2]
    if rec is not None:
        st.wr(rec).alive = False
    st.event("closedir", r.id)
    return 0


def once(st, name):
    k = ("once", name)
    if k not in st.ghost:
        st.ghost[k] = st.fresh(name, 0, 1 << 40)
    return st.ghost[k]


def stat(eng, st, a, ins, nm):
    b = text(eng, st, a[0], nm)
    eng.check(st, a[1], 144, nm)
    if len(b) > 4095:
        libc.fail(eng, st, nm, val=36)
        return s32(-1)
    p = norm(b)
    x = known(st, p)
    if x is None:
        raise Violation("spec", "%s('%s'), which is not an entry" % (nm, p[-60:]), "what is looked at")
    if st.choose(2, nm) == 1:
        libc.fail(eng, st, nm)
        return s32(-1)
    t = x[1]
    if t == "lnk" and not nm.startswith("l"):
        t = ("reg", "dir")[st.choose(2, "target")]
        sz = once(st, "target(%s)" % p)
    else:
        sz = once(st, "size(%s)" % p)
    eng.fill(st, a[1], 144, ("fresh", ("stat", p)), nm)
    eng.store(st, Ptr(a[1].r, add(a[1].o, 24)), 4, TYPES[t][0])
    eng.store(st, Ptr(a[1].r, add(a[1].o, 48)), 8, sz)
    return 0


def tree(eng, st, a, ins, nm):
    ret = libc.snum(eng, st, a[0], 64)
    root = norm(text(eng, st, a[1], nm))
    rec = libc.cnum(eng, st, a[2])
    fs = fails(st)
    if not st.truth(("ge", dom.toF(ret))):
        if is_errno(eng, st, ret, fs):
            eng.oblige("an error is the errno of a failing call")
            return
        if minus(st, ret, 36) and len(root) > 3800:
            eng.oblige("a name too long is refused")
            return
        raise Violation("spec", "the call fails with %s, which is no failing call's error" % (ret,), "error value")
    for e in fs:
        if e[1] != "malloc" and e[1] != "calloc":
            raise Violation("spec", "%s failed (%s), yet a size is returned" % (e[1], e[3]), "partial sum")
    want = 0
    todo = [root]
    ends = {e[1] for e in st.events() if e[0] == "dirend"}
    while todo:
        d = todo.pop()
        if d not in ends:
            raise Violation("spec", "a size is returned though '%s' was not listed to its end" % d[-60:], "partial sum")
        for x in st.ghost.get(("ents", d), ()):
            if x == "end" or x[0] in (".", ".."):
                continue
            p = (d if d != "/" else "") + "/" + x[0]
            if x[1] == "reg":
                want = add(want, once(st, "size(%s)" % p))
            elif x[1] == "dir" and rec:
                todo.append(p)
    d = st.cs.norm(dom.toF(sub(ret, want)))
    if st.decide(("eq", dom.toF(d))) is not True:
        raise Violation("spec", "the result %r is not the sum %r of the sizes of the regular files" % (ret, want), "sum")
    eng.oblige("the result is the sum of the sizes of the regular files")


X = {"opendir": opendir, "readdir": readdir, "readdir64": readdir, "closedir": closedir, "lstat64": stat, "lstat": stat,
     "stat64": stat, "stat": stat, "vf_tree": tree}


@check("X01")
def x01(ctx):
    p = ctx.prog(harness=("files.c",))
    t = ctx.thorough
    for rec in (0, 1):
        ctx.add(p, "x01_size", args=(rec, 1), models=X, cfg={"max_entries": [3, 2] if t else [2, 1], "max_site_fail": 1, "max_paths": 200000},
                label="%s, wide" % ("recursive" if rec else "flat"))
    ctx.add(p, "x01_size", args=(1, 0), models=X, cfg={"max_entries": [1, 1, 1, 1, 1] if t else [1, 1, 1, 1], "max_site_fail": 1, "max_paths": 200000}, label="recursive, deep")
    for n in (4000, 4092, 4093, 4094, 4095):
        ctx.add(p, "x01_long", args=(n,), models=X, cfg={"max_entries": [1, 1], "max_site_fail": 1}, label="path of %d bytes" % n)


# ---------------------------------------------------------------- I01
def ino_read(eng, st, a, ins, nm):
    k, x, f = libc.use_fd(eng, st, a[0], nm)
    n = libc.unum(eng, st, a[2])
    eng.check(st, a[1], n, "read() destination")
    st.event("read", f, a[1], n)
    c = st.choose(5, "read")
    if c == 0:
        libc.fail(eng, st, nm)
        return i64(-1)
    if c == 1:
        return 0
    o = 0
    for i in range(c - 1):
        L = dom.scale(st.fresh("name%d" % i, 0, 16), 16)
        e = add(o, add(16, L))
        # only whole events
        if not st.truth(("ge", dom.toF(sub(n, e)))):
            raise dom.Infeasible()
        b = Ptr(a[1].r, add(a[1].o, o))
        v = [st.fresh("wd%d" % i, -1, (1 << 31) - 1)] + [st.fresh("%s%d" % (q, i), 0, (1 << 32) - 1) for q in ("mask", "cookie")]
        for j, y in enumerate(v):
            eng.store(st, Ptr(b.r, add(b.o, 4 * j)), 4, y)
        eng.store(st, Ptr(b.r, add(b.o, 12)), 4, L)
        eng.fill(st, Ptr(b.r, add(b.o, 16)), L, ("fresh", ("name", i)), nm)
        st.event("iev", b, L, v[0], v[1], v[2])
        o = e
    return i64(o)


def events(eng, st, a, ins, nm):
    got = [e for e in st.events() if e[0] == "mark" and e[1] == "event"]
    want = [e for e in st.events() if e[0] == "iev"]
    if len(got) != len(want):
        raise Violation("spec", "%d events are delivered, the kernel returned %d" % (len(got), len(want)), "events delivered")
    for g, w in zip(got, want):
        v = g[2]
        if not isinstance(v[0], Ptr) or v[0].r != w[1].r or st.decide(("eq", dom.toF(sub(v[0].o, w[1].o)))) is not True:
            raise Violation("spec", "an event is delivered out of place", "event place")
        for i in range(4):
            if st.decide(("eq", dom.toF(st.cs.norm(dom.toF(sub(libc.unum(eng, st, v[1 + i], 32), libc.unum(eng, st, w[2 + i], 32))))))) is not True:
                raise Violation("spec", "an event is not delivered as it was read", "event content")
    eng.oblige("every event read is delivered once, in order")
    # what is waiting is fetched
    fs = fails(st)
    pending = [e[2] for e in st.events() if e[0] == "fionread"]
    if not fs and not any(e[0] == "read" for e in st.events()) and (not pending or st.truth(("ge", dom.toF(sub(pending[-1], 16))))):
        raise Violation("spec", "nothing is read although events are waiting", "events fetched")


@check("I01")
def i01(ctx):
    p = ctx.prog(harness=("files.c",))
    ctx.add(p, "i01_process", models={"read": ino_read, "vf_events": events})
    ctx.add(p, "i01_create")
    ctx.add(p, "i01_destroy")
