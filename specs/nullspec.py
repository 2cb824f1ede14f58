"""G02: missing arguments"""
from vsa import dom, libc
from vsa.dom import sub
from vsa.engine import Violation
from vsa.run import check
from specs.dynspec import is_write

# calls that something outside the caller's objects can notice
EFFECTS = set("""write pwrite writev send sendto sendmsg read pread readv recv recvfrom recvmsg open open64 openat creat fopen fopen64 fdopen
freopen fclose fflush fwrite fputs fputc putc fprintf vfprintf fread fgets getc fgetc unlink unlinkat remove rename renameat renameat2 mkdir
rmdir link symlink truncate ftruncate fsync fdatasync sync syncfs close dup dup2 dup3 pipe pipe2 eventfd socket fcntl fcntl64 ioctl poll ppoll
select pselect epoll_wait settimeofday clock_settime adjtime nanosleep clock_nanosleep usleep sleep opendir readdir
inotify_init inotify_init1 inotify_add_watch inotify_rm_watch getrandom getentropy pthread_cond_signal pthread_cond_broadcast
pthread_cond_wait pthread_cond_timedwait pthread_create abort exit _exit setenv putenv""".split())


def begin(eng, st, a, ins, nm):
    st.ghost["refuse"] = frozenset(r.id for r in st.mem.values() if r.alive and r.kind not in ("global", "const") and r.name not in ("errno", "output"))
    st.ghost["refuse_locks"] = frozenset(k for k, v in st.ghost.items() if k.__class__ is tuple and k[0] == "mtx" and v)


def access(eng, st, r, off, size, what):
    z = st.ghost.get("refuse")
    if not z or r.id not in z or not is_write(what) or what.startswith("pthread"):
        return
    if st.frames and len(st.frames) <= 1:
        return          # the driver's own objects
    raise Violation("spec", "%s to '%s' although an argument is missing" % (what, r.name), "nothing is modified")


def calls(eng, st, name, args, ins):
    if len(st.frames) == 1 and name in eng.p.defined and name not in ("done", "arg", "out", "pattern"):
        st.ghost["callee"] = name
    if st.ghost.get("refuse") is not None and name in EFFECTS:
        raise Violation("spec", "%s() is called although an argument is missing" % name, "no side effect")


def refused(eng, st, a, ins, nm):
    z, st.ghost["refuse"] = st.ghost["refuse"], None
    got, want = libc.snum(eng, st, a[0]), libc.snum(eng, st, a[1])
    if st.decide(("eq", dom.toF(sub(got, want)))) is not True:
        raise Violation("spec", "%s returns %s instead of %s for a missing argument" % (st.ghost.get("callee", "the call"), st.cs.norm(dom.toF(got)), want), "refusal value")
    for r in st.mem.values():
        if r.kind == "heap" and r.alive and r.id not in z:
            raise Violation("leak", "'%s' stays allocated after %s refused its arguments" % (r.name, st.ghost.get("callee", "the call")), "no side effect")
    for i in z:
        r = st.mem.get(i)
        if r is not None and r.kind == "heap" and not r.alive:
            raise Violation("spec", "'%s' is freed by a refused call" % r.name, "no side effect")
    now = frozenset(k for k, v in st.ghost.items() if k.__class__ is tuple and k[0] == "mtx" and v)
    if now != st.ghost["refuse_locks"]:
        raise Violation("spec", "%s leaves a lock held" % st.ghost.get("callee", "the call"), "no side effect")
    eng.oblige("a missing argument is refused with the documented value")
    eng.oblige("a refused call changes nothing")


MODELS = {"vf_refuse_begin": begin, "vf_refused": refused}
DRIVERS = """hash mbox mbox_none dynmbox dynmbox_none time_two time_cmp time_add time_diff time_diff_us time_range time_mono ctx ctx_get
local local_tm local_text local_format varint_read varint_write safew sync sanitize check random""".split()


@check("G02")
def g02(ctx):
    p = ctx.prog(harness=("nullargs.c",))
    ctx.rule("every pattern of missing arguments: the refusal value, no access through the missing argument, no store to an existing "
             "object, no call with an outside effect, nothing allocated, freed or locked afterwards")
    for d in DRIVERS:
        ctx.add(p, "g02_" + d, models=MODELS, access_hook=access, calls_hook=calls)
    ctx.run()
