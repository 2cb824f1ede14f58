"""G01-G03: rules over the whole library"""
import json
import os
import re
import subprocess
import tempfile
from vsa import build, dom, libc
from vsa.dom import sub
from vsa.engine import Ptr, Violation
from vsa.run import check

# routines that return or use storage shared by all callers (POSIX.1-2017 2.9.1, glibc manual "MT-Unsafe"
# for races on static storage); strerror is left out: glibc keeps its buffer per thread
HIDDEN = set("""strtok asctime ctime gmtime localtime rand srand random srandom initstate setstate drand48 erand48 jrand48 lcong48 lrand48
mrand48 nrand48 seed48 srand48 ecvt fcvt qecvt qfcvt getdate getenv_s gethostbyaddr gethostbyname gethostbyname2 gethostent getnetbyaddr
getnetbyname getnetent getprotobyname getprotobynumber getprotoent getservbyname getservbyport getservent getpwnam getpwuid getpwent
getgrnam getgrgid getgrent getspnam getspent getlogin getutent getutid getutline getutxent getutxid getutxline pututline inet_ntoa
ether_ntoa ether_aton ttyname ptsname ctermid strsignal l64a mblen mbtowc wctomb hcreate hdestroy hsearch localeconv setlocale
catgets nl_langinfo crypt encrypt setkey getopt getopt_long getmntent getusershell fgetpwent fgetgrent fgetspent getfsent getfsspec
getfsfile setenv putenv unsetenv clearenv lgamma lgammaf lgammal gamma gammaf dbm_open readdir_shared tempnam_shared mallinfo
ftw_shared mcheck re_comp re_exec getrpcent getrpcbyname getaliasent wcstok_shared""".split())
# hidden state only when the place for it is not given
NULL_STATE = {"mbrtowc": 3, "mbsrtowcs": 3, "mbsnrtowcs": 4, "wcrtomb": 2, "wcsrtombs": 3, "wcsnrtombs": 4, "mbrlen": 2,
              "tmpnam": 0, "strtok_r": 2, "ctermid_r": 0}


def base(p, f, o, defs, seen=None):
    """globals a pointer operand may point into: set of names"""
    seen = seen if seen is not None else set()
    if o[0] == "g":
        return {o[1]}
    if o[0] in ("byval",):
        return base(p, f, o[1], defs, seen)
    if o[0] != "v" or o[1] in seen:
        return set()
    seen.add(o[1])
    i = defs.get(o[1])
    if i is None:
        return {("arg", o[1])}
    k = i["o"]
    if k == "getelementptr":
        return base(p, f, i["p"], defs, seen)
    if k == "phi":
        return set().union(*[base(p, f, x[1], defs, seen) for x in i["in"]])
    if k == "select":
        return base(p, f, i["a"], defs, seen) | base(p, f, i["b"], defs, seen)
    if k in ("bitcast", "addrspacecast", "freeze"):
        return base(p, f, i.get("a") or i["as"][0], defs, seen)
    if k == "call" and i["f"][0] == "f" and i["f"][1].startswith("llvm.threadlocal.address"):
        return base(p, f, i["as"][0], defs, seen)
    if k == "call" and i["f"][0] == "f":
        return {("ret", i["f"][1])}
    return set()


LOCK = ("pthread_mutex_lock", "mtx_lock", "__cxa_guard_acquire", "pthread_spin_lock", "pthread_rwlock_wrlock")
UNLOCK = ("pthread_mutex_unlock", "mtx_unlock", "__cxa_guard_release", "__cxa_guard_abort", "pthread_spin_unlock", "pthread_rwlock_unlock")
# what these take a pointer to synchronises itself
SYNC = re.compile(r"(pthread_|mtx_|cnd_|call_once|tss_|sem_|__cxa_guard_|atomic_).*")
# destination argument of the routines that write through a pointer
WRITES = {"memcpy": (0,), "memmove": (0,), "memset": (0,), "strcpy": (0,), "strncpy": (0,), "strcat": (0,), "strncat": (0,), "sprintf": (0,),
          "snprintf": (0,), "vsprintf": (0,), "vsnprintf": (0,), "stpcpy": (0,), "read": (1,), "fread": (0,), "fgets": (0,), "gmtime_r": (1,),
          "localtime_r": (1,), "strftime": (0,), "clock_gettime": (1,), "gettimeofday": (0, 1), "stat": (1,), "lstat": (1,), "fstat": (1,),
          "stat64": (1,), "lstat64": (1,), "fstat64": (1,), "strptime": (2,), "sscanf": "rest", "__isoc99_sscanf": "rest", "__isoc23_sscanf": "rest", "getrandom": (0,), "pipe": (0,), "pipe2": (0,),
          "time": (0,), "strerror_r": (1,), "getcwd": (0,), "readlink": (1,), "strtol": (1,), "iconv": (1, 2, 3, 4), "calloc": (), "realpath": (1,),
          "localtime64_r": (1,), "dirname": (0,), "__xpg_basename": (0,), "strtok_r": (0, 2), "qsort": (0,), "wcscpy": (0,), "wmemcpy": (0,), "swprintf": (0,), "memccpy": (0,)}


def held(fn):
    """blocks x instructions at which some lock is held on every path of the function"""
    bs = fn["blocks"]
    n = len(bs)
    inn = [None] * n
    inn[0] = False
    work = [0]
    at = {}
    while work:
        b = work.pop()
        h = inn[b]
        for j, i in enumerate(bs[b]):
            at[(b, j)] = h
            if i["o"] == "call" and i["f"][0] == "f":
                if i["f"][1] in LOCK:
                    h = True
                elif i["f"][1] in UNLOCK:
                    h = False
            succ = []
            if i["o"] == "br":
                succ = i["s"]
            elif i["o"] == "switch":
                succ = [i["d"]] + [c[1] for c in i["cs"]]
            elif i["o"] == "call" and "nd" in i:
                succ = [i["nd"]]
            for s in succ:
                v = h if inn[s] is None else (inn[s] and h)
                if v != inn[s]:
                    inn[s] = v
                    work.append(s)
    return at


def loc(p, f, i):
    fn = p.funcs[f]
    l = i.get("l")
    if l and l[0]:
        return "%s:%d" % (l[0], l[1])
    return "%s:%d" % (fn.get("file", "?"), fn.get("line", 0))


def rel(x):
    return x[len(build.REPO) + 1:] if x.startswith(build.REPO + "/") else x


@check("G01")
def g01(ctx):
    p = ctx.prog(lib=True, cxx=True)
    srcs = os.path.join(build.REPO, "")
    mine = sorted(f for f in p.defined if p.funcs[f].get("file", "").startswith(srcs))
    # 1. library calls
    calls = 0
    used = {}
    for f in mine:
        fn = p.funcs[f]
        for b in fn["blocks"]:
            for i in b:
                if i["o"] != "call" or i["f"][0] != "f":
                    continue
                c = i["f"][1]
                if c in p.defined or c.startswith("llvm."):
                    continue
                calls += 1
                used[c] = used.get(c, 0) + 1
                bad = c in HIDDEN
                if c in NULL_STATE and len(i["as"]) > NULL_STATE[c] and i["as"][NULL_STATE[c]][0] == "n":
                    bad = True
                if bad:
                    ctx.violate(rel(loc(p, f, i)), "%s calls %s, which uses storage shared by all threads" % (p.funcs[f].get("dname", f), c),
                                kind="reentrancy", ident="call of " + c)
    ctx.rule("no call of a routine that returns or uses hidden shared storage (%d routines listed)" % (len(HIDDEN) + len(NULL_STATE)))
    ctx.lint_result("library calls", calls, ["%s x%d" % x for x in sorted(used.items())])

    # 2. globals
    ctx.rule("every object of static storage duration is constant, per thread, never written, accessed by atomic operations only, "
             "written in a routine run by pthread_once/call_once only, or written with a lock held")
    vars_ = {n: g for n, g in p.globals.items() if not g.get("const") and not g.get("tls") and not g.get("decl")
             and (g.get("file", "").startswith(srcs) or "file" not in g) and not n.startswith(("__const", ".str", "_ZGV", "_ZSt", "__PRETTY", "_ZTV", "_ZTS", "_ZTI"))}
    once = set()
    defs_of = {}
    for f in mine:
        d = {}
        for b in p.funcs[f]["blocks"]:
            for i in b:
                if "id" in i:
                    d[i["id"]] = i
                if i["o"] == "call" and i["f"][0] == "f" and i["f"][1] in ("pthread_once", "call_once"):
                    for a in i["as"]:
                        if a[0] == "f":
                            once.add(a[1])
        defs_of[f] = d
    # callee -> argument position -> accesses through that argument, to a fixpoint
    reach = {}                 # (f, arg id) -> set of globals
    rets = {}
    for _ in range(30):
        changed = False
        for f in mine:
            d = defs_of[f]
            for b in p.funcs[f]["blocks"]:
                for i in b:
                    if i["o"] == "ret" and "v" in i:
                        t = expand(base(p, f, i["v"], d), f, reach, rets)
                        if not t <= rets.setdefault(f, set()):
                            rets[f] |= t
                            changed = True
                    if i["o"] != "call" or i["f"][0] != "f" or i["f"][1] not in defs_of:
                        continue
                    g = p.funcs[i["f"][1]]
                    for a, x in zip(g["args"], i["as"]):
                        t = expand(base(p, f, x, d), f, reach, rets)
                        k = (i["f"][1], a["id"])
                        if not t <= reach.setdefault(k, set()):
                            reach[k] |= t
                            changed = True
        if not changed:
            break
    acc = {n: [] for n in vars_}
    for f in mine:
        d = defs_of[f]
        at = held(p.funcs[f])
        for bi, b in enumerate(p.funcs[f]["blocks"]):
            for ii, i in enumerate(b):
                how = []
                if i["o"] == "load":
                    how = [(i["p"], "read", i.get("at"))]
                elif i["o"] == "store":
                    how = [(i["p"], "write", i.get("at"))]
                elif i["o"] in ("atomicrmw", "cmpxchg"):
                    how = [(i.get("p") or i["as"][0], "write", True)]
                elif i["o"] == "call" and i["f"][0] == "f":
                    c = i["f"][1]
                    c2 = "memcpy" if c.startswith("llvm.memcpy") else "memmove" if c.startswith("llvm.memmove") else "memset" if c.startswith("llvm.memset") else c
                    if c2 in WRITES:
                        w = WRITES[c2]
                        for k, x in enumerate(i["as"]):
                            if w == "rest" and k >= 2 or w != "rest" and k in w:
                                how.append((x, "write", False))
                for x, kind, atomic in how:
                    for n in expand(base(p, f, x, d), f, reach, rets):
                        if n in acc:
                            acc[n].append((f, i, kind, bool(atomic), bool(at.get((bi, ii))), f in once))
    n = 0
    sample = []
    for name, g in sorted(vars_.items()):
        n += 1
        ws = [a for a in acc[name] if a[2] == "write"]
        why = "never written"
        if ws:
            why = "synchronised"
            for f, i, kind, atomic, lock, in_once in acc[name]:
                if atomic or lock or in_once:
                    continue
                if kind == "read" and all(w[5] for w in ws):
                    continue          # written once before any use
                ctx.violate(rel(loc(p, f, i)), "%s %ss '%s' (%s:%s), which all threads share, without synchronisation" % (
                    p.funcs[f].get("dname", f), kind, g.get("dname", name), rel(g.get("file", "?")), g.get("line", "?")),
                    kind="race", ident="shared '%s'" % g.get("dname", name))
                break
        sample.append("%s: %s, %d accesses" % (g.get("dname", name), why, len(acc[name])))
    tl = [g.get("dname", k) for k, g in p.globals.items() if g.get("tls")]
    ctx.lint_result("objects of static storage duration that are not constant", n, sample + ["per thread: " + ", ".join(tl)])
    ctx.lint_result("functions of the library", len(mine), mine)


def expand(t, f, reach, rets):
    out = set()
    for x in t:
        if isinstance(x, tuple):
            out |= reach.get((f, x[1]), set()) if x[0] == "arg" else rets.get(x[1], set())
        else:
            out.add(x)
    return out
