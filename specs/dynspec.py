from vsa import dom
from vsa.engine import PathEnd, Violation
from vsa.run import check


def active(st):
    a = False
    for e in st.events():
        if e[0] == "mark":
            if e[1] == "begin":
                a = True
            elif e[1] == "end":
                a = False
    return a


def is_write(what):
    return "write" in what or "destination" in what or what.startswith("memset")


def locks_held(st):
    return frozenset((k[1], k[2]) for k, v in st.ghost.items() if k.__class__ is tuple and k[0] == "mtx" and v)


def access(eng, st, r, off, size, what):
    """D01 lockset collection / D03 queue-change log: accesses to heap objects
    that existed before the operation began"""
    if r.kind != "heap" or what.startswith("pthread"):
        return
    if not st.ghost.get("op"):
        # learn which objects are shared
        return
    if r.id not in st.ghost["op"]:
        return
    w = is_write(what)
    held = locks_held(st)
    ex = eng.extra = getattr(eng, "extra", None) or {}
    key = (r.name, off if isinstance(off, int) else None, size if isinstance(size, int) else None, w,
           frozenset(o for _, o in held))
    if key not in ex:
        ex[key] = (eng.loc(st), eng.stack(st))
    if w and held:
        if st.ghost.get("changed") != st.ghost.get("section", 0):
            st.ghost["changed"] = st.ghost.get("section", 0)
            st.event("qchange")


def mark(eng, st, a, ins, nm):
    from vsa import libc
    r = libc.M_BASE["vf_mark"](eng, st, a, ins, nm)
    n = libc.aname(eng, st, a[0])
    if n == "begin":
        st.ghost["op"] = frozenset(x.id for x in st.mem.values() if x.kind == "heap" and x.alive)
        st.ghost["changed"] = None
    elif n == "end":
        st.ghost["op"] = None
    elif n == "snap":
        # contents of the shared objects with an empty queue
        st.ghost["snapshot"] = tuple((x.id, dict(x.cells), x.log, x.default) for x in st.mem.values() if x.kind == "heap" and x.alive)
    return r


def on_lock(eng, st, p):
    st.ghost["section"] = st.ghost.get("section", 0) + 1
    st.event("section")


def on_wait(eng, st, c, mtx):
    n = st.ghost.get("nwait", 0) + 1
    st.ghost["nwait"] = n
    if n > eng.cfg.get("max_waits", 2):
        raise PathEnd("wait_bound")
    if st.ghost.get("snapshot") and st.choose(2, "drained while waiting") == 1:
        for rid, cells, log, dflt in st.ghost["snapshot"]:
            r = st.wr(rid)
            r.cells = dict(cells)
            r.log = log
            r.default = dflt
        st.event("drained")


MODELS = {"vf_mark": mark}
CFG = {"on_lock": on_lock, "on_wait": on_wait, "atomic_read": True}


def g(ctx, *es, **kw):
    p = ctx.prog(harness=("dynmbox.c",))
    kw.setdefault("cfg", dict(CFG))
    for e in es:
        ctx.add(p, e, models=MODELS, **kw)


def overlap(a, b):
    if a[0] != b[0]:
        return False
    if a[1] is None or b[1] is None or a[2] is None or b[2] is None:
        return True
    return a[1] < b[1] + b[2] and b[1] < a[1] + a[2]


@check("D01")
def d01(ctx):
    ctx.rule("lockset: of every pair of accesses to the same bytes of a shared object, one of them a write, "
             "some mutex of the mailbox is held in both")
    g(ctx, "d01_push", "d01_push_block", "d01_peek", access_hook=access)
    acc = {}
    for r in ctx.run():
        for k, v in (r["extra"] or {}).items():
            acc.setdefault(k, (v, r["entry"]))
    writes = [k for k in acc if k[3]]
    n = 0
    for k in acc:
        for w in writes:
            if overlap(k, w):
                n += 1
                if not (k[4] & w[4]):
                    a = acc[k] if not k[4] else acc[w]
                    (loc, stack), entry = a
                    ctx.violate(loc, "shared queue state '%s' offset %s is %s without the lock that protects its writers" % (
                        k[0], k[1], "written" if (k if not k[4] else w)[3] else "read"), kind="lockset",
                        detail=stack, ident="lockset %s %s" % (k[0], loc))
    ctx.lint_result("lockset pairs", n, ["%s+%s(%s) %s held=%s at %s" % (k[0], k[1], k[2], "w" if k[3] else "r", sorted(k[4], key=str), acc[k][0][0]) for k in list(acc)[:12]])


def d03_end(eng, st):
    """critical sections of the operation: queue changes and notifications"""
    sec = None
    change, note = [], []
    nsec = 0
    res = None
    inop = False
    for e in st.events():
        if e[0] == "mark" and e[1] == "begin":
            inop = True
            sec = None
        elif e[0] == "mark" and e[1] == "end":
            inop = False
            res = e[2][0]
        elif not inop:
            continue
        elif e[0] == "section":
            nsec += 1
            sec = nsec
        elif e[0] == "unlock":
            sec = None
        elif e[0] == "qchange":
            change.append(sec)
        elif e[0] == "write_res" and e[2] is not None:
            note.append((sec, e[2]))
        elif e[0] == "read_res" and e[2] is not None:
            if isinstance(e[2], int) and e[2] == 0:
                raise PathEnd("eof")
            note.append((sec, e[2]))
        elif e[0] == "fail" and e[1] in ("write", "read"):
            # the notification pipe never runs full or dry when the invariant holds
            raise PathEnd("pipe fault")
    if res is None:
        return
    res = st.cs.as_s(eng.num(st, res), 32)
    ok = st.decide(("ge", dom.toF(res)))
    eng.oblige("one notification per successful operation, none otherwise")
    eng.oblige("notification and queue change share a critical section")
    if ok is True:
        n = 0
        for s, c in note:
            if not isinstance(c, int):
                raise Violation("spec", "a notification of unknown size", "one byte per message")
            n += c
        if n != 1:
            raise Violation("spec", "a successful operation moves %d notification bytes instead of 1" % n,
                            "one notification per successful operation, none otherwise")
        if any(s is None or s not in change for s, c in note):
            raise Violation("spec", "the notification is outside the critical section that changes the queue",
                            "notification and queue change share a critical section")
    elif ok is False:
        if note:
            raise Violation("spec", "a failed operation moves a notification byte",
                            "one notification per successful operation, none otherwise")


@check("D03")
def d03(ctx):
    ctx.rule("automaton over lock/unlock/wait, queue writes and pipe transfers of each operation")
    g(ctx, "d01_push", "d01_push_block", "d01_peek", access_hook=access, on_end=d03_end)


@check("D02")
def d02(ctx):
    g(ctx, "d02_one", "d02_two", "d02_zero", "d02_args")


@check("D04")
def d04(ctx):
    g(ctx, "d04_block", "d04_wake")


@check("D05")
def d05(ctx):
    g(ctx, "d05_new", "d05_null")
