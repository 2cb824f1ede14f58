"""Trace-partitioned abstract interpreter over the JSON IR of irdump."""
import json
import re
from math import gcd
import time
from . import dom, poly
from .dom import (F, Store, NeedSplit, Infeasible, ATOMS, add, sub, scale, simp,
                  new_atom, fatom, uf)


class Undef:
    __slots__ = ()

    def __repr__(self):
        return "undef"


UNDEF = Undef()


class Ptr:
    __slots__ = ("r", "o")

    def __init__(self, r, o):
        self.r = r
        self.o = o

    def __repr__(self):
        return "&%s+%s" % (self.r, self.o)

    def __eq__(self, x):
        return isinstance(x, Ptr) and x.r == self.r and x.o == self.o

    def __hash__(self):
        return hash((self.r, self.o))


class FnPtr:
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __eq__(self, x):
        return isinstance(x, FnPtr) and x.n == self.n

    def __hash__(self):
        return hash(self.n)

    def __repr__(self):
        return "fn:" + self.n


class PtrByte:
    __slots__ = ("v", "i")

    def __init__(self, v, i):
        self.v = v
        self.i = i


class Flt:
    """interval of doubles (endpoints attained)"""
    __slots__ = ("lo", "hi", "src")

    def __init__(self, lo, hi, src=None):
        self.lo = lo
        self.hi = hi
        self.src = src

    def __repr__(self):
        return "[%r,%r]" % (self.lo, self.hi)


class Cond:
    """undecided i1"""
    __slots__ = ("c",)

    def __init__(self, k, f):
        self.c = (k, f)

    def __repr__(self):
        return "%s%s" % self.c


NEGK = {"ge": "lt", "lt": "ge", "eq": "ne", "ne": "eq"}


class PathEnd(Exception):
    def __init__(self, why):
        self.why = why


class NeedChoice(Exception):
    def __init__(self, n, label):
        self.n = n
        self.label = label


class Violation(Exception):
    def __init__(self, kind, msg, ident=None):
        self.kind = kind
        self.msg = msg
        self.ident = ident


class Unsupported(Exception):
    pass


class Region:
    __slots__ = ("id", "name", "kind", "size", "alive", "cells", "log", "default",
                 "const", "meta", "site")

    def clone(self):
        r = Region.__new__(Region)
        r.id = self.id
        r.name = self.name
        r.kind = self.kind
        r.size = self.size
        r.alive = self.alive
        r.cells = dict(self.cells)
        r.log = self.log
        r.default = self.default
        r.const = self.const
        r.meta = self.meta
        r.site = self.site
        return r


class Frame:
    __slots__ = ("fn", "fname", "blk", "idx", "prev", "regs", "allocas", "retid",
                 "visits", "retblk", "varargs", "onret")

    def clone(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn
        f.fname = self.fname
        f.blk = self.blk
        f.idx = self.idx
        f.prev = self.prev
        f.regs = dict(self.regs)
        f.allocas = list(self.allocas)
        f.retid = self.retid
        f.visits = dict(self.visits)
        f.retblk = self.retblk
        f.varargs = self.varargs
        f.onret = self.onret
        return f


# library calls whose failure outcomes vf_nofault(1) sets aside
FAULTS = frozenset("""clock_gettime gettimeofday close fcntl get|fcntl set|open write read pipe pipe2 malloc calloc
realloc strdup strndup fsync fdatasync poll opendir iconv_open inotify_init inotify_init1 inotify_add_watch ioctl
settimeofday clock_settime nanosleep getrandom getentropy new
fopen fopen64 fclose fflush fwrite vfprintf fread getc fgetc rename unlink remove""".replace("get|fcntl set|", "").split()) | {"fcntl get", "fcntl set"}


class State:
    __slots__ = ("frames", "mem", "own", "cs", "log", "globs", "errno", "trace",
                 "choices", "cpos", "nrid", "ghost", "known", "flags", "steps", "owntop", "natom")

    def clone(self):
        s = State.__new__(State)
        s.frames = [f.clone() if i == len(self.frames) - 1 else f
                    for i, f in enumerate(self.frames)]
        # caller frames are only mutated after becoming the top frame: clone then
        s.owntop = len(s.frames) - 1
        self.owntop = len(self.frames) - 1
        # the original's lower frames are now shared too
        s.mem = dict(self.mem)
        s.own = set()
        self.own = set()
        s.cs = self.cs.clone()
        s.log = self.log
        s.globs = dict(self.globs)
        s.errno = self.errno
        s.trace = self.trace
        s.choices = self.choices
        s.cpos = 0
        s.nrid = self.nrid
        s.ghost = dict(self.ghost)
        s.known = dict(self.known)
        s.flags = self.flags
        s.steps = self.steps
        s.natom = dict(self.natom)
        return s

    # -- conditions
    def truth(self, cond):
        k, f = cond
        f = self.cs.norm(f)
        r = self.cs.decide((k, f))
        if r is None:
            r = self.known.get((k, f))
            if r is None:
                raise NeedSplit((k, f))
        return r

    def decide(self, cond):
        k, f = cond
        f = self.cs.norm(f)
        r = self.cs.decide((k, f))
        if r is None:
            r = self.known.get((k, f))
        return r

    def assume(self, cond, val=True):
        k, f = cond
        f = self.cs.norm(f)
        self.known[(k, f)] = val
        self.known[(NEGK[k], f)] = not val
        self.cs.assume((k if val else NEGK[k], f))

    def choose(self, n, label=""):
        if n == 1 or label in FAULTS and self.ghost.get("nofault") and not (label == "rename" and self.ghost["nofault"] == 2):
            return 0
        if self.cpos < len(self.choices):
            r = self.choices[self.cpos]
            self.cpos += 1
            return r
        raise NeedChoice(n, label)

    def fresh(self, name, lo, hi):
        """fresh input atom; numbering is deterministic per path position"""
        n = self.natom.get(name, 0)
        self.natom[name] = n + 1
        key = ("fresh", name, n, lo, hi)
        a = dom.MEMO.get(key)
        if a is None:
            a = new_atom("%s.%d" % (name, n) if n else name, lo, hi)
            dom.MEMO[key] = a
        return fatom(a)

    def event(self, *ev):
        self.log = (self.log, ev)

    def events(self):
        out = []
        l = self.log
        while l is not None:
            out.append(l[1])
            l = l[0]
        out.reverse()
        return out

    # -- regions
    def region(self, name, size, kind, default="uninit", const=False, site=None, meta=None):
        r = Region()
        self.nrid += 1
        r.id = self.nrid
        r.name = name
        r.kind = kind
        r.size = size
        r.alive = True
        r.cells = {}
        r.log = ()
        r.default = default
        r.const = const
        r.meta = meta
        r.site = site
        self.mem[r.id] = r
        self.own.add(r.id)
        return r

    def wr(self, rid):
        if rid in self.own:
            return self.mem[rid]
        r = self.mem[rid].clone()
        self.mem[rid] = r
        self.own.add(rid)
        return r


class Program:
    def __init__(self, js):
        self.globals = js["globals"]
        self.funcs = js["funcs"]
        self.defined = {n for n, f in self.funcs.items() if not f.get("decl")}
        self.ninstr = 0
        for n in self.defined:
            for b in self.funcs[n]["blocks"]:
                self.ninstr += len(b)
            narrow(self.funcs[n])


def narrow(fn):
    """compare sign-extended characters for equality in their own width (the sign then needs no partition)"""
    sx = {}
    for b in fn["blocks"]:
        for i in b:
            if i["o"] == "sext" and i["st"] in ("i8", "i16") and i["a"][0] == "v":
                sx[i["id"]] = i
    if not sx:
        return

    def src(o):
        return sx.get(o[1]) if o[0] == "v" else None

    def fits(k, w):
        return -(1 << (w - 1)) <= k < 1 << (w - 1)

    def sval(o, t):
        w = width(t)
        k = int(o) & ((1 << w) - 1)
        return k - (1 << w) if k >> (w - 1) else k
    for b in fn["blocks"]:
        for i in b:
            if i["o"] == "icmp" and i["pr"] in ("eq", "ne"):
                x, y = i["a"], i["b"]
                if src(y) and not src(x):
                    x, y = y, x
                a = src(x)
                if not a:
                    continue
                if src(y) and src(y)["st"] == a["st"]:
                    i["a"], i["b"], i["ot"] = a["a"], src(y)["a"], a["st"]
                elif y[0] == "i":
                    w = width(a["st"])
                    k = sval(y[2], i["ot"])
                    if fits(k, w):
                        i["a"], i["b"], i["ot"] = a["a"], ["i", w, str(k & ((1 << w) - 1))], a["st"]
            elif i["o"] == "switch" and src(i["c"]):
                a = src(i["c"])
                w = width(a["st"])
                i["c"] = a["a"]
                i["cs"] = [[str(sval(k, a["t"]) & ((1 << w) - 1)), t] for k, t in i["cs"] if fits(sval(k, a["t"]), w)]
    used = set()

    def walk(x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] == "v" and not isinstance(x[1], (list, dict)):
                used.add(x[1])
                return
            for y in x:
                walk(y)
    for b in fn["blocks"]:
        for i in b:
            for k, v in i.items():
                if k not in ("o", "id"):
                    walk(v)
    for j, b in enumerate(fn["blocks"]):
        fn["blocks"][j] = [i for i in b if i.get("id") not in sx or i["id"] in used]


def width(t):
    return int(t[1:])


def f32(x):
    import struct
    try:
        return struct.unpack("f", struct.pack("f", x))[0]
    except OverflowError:
        return float("inf")


class Engine:
    def __init__(self, prog, models, cfg=None):
        self.p = prog
        self.models = models
        self.cfg = {"poly_min": 3, "max_paths": 20000, "max_steps": 3_000_000, "max_visits": 5000,
                    "time": 600.0, "max_violations": 300, "path_steps": 400000, "recursion": 6}
        if cfg:
            self.cfg.update(cfg)
        self.violations = []
        self.reported = {}
        self.stats = {"paths": 0, "steps": 0, "splits": 0, "choices": 0, "infeasible": 0,
                      "truncated": 0, "unsupported": {}, "assumed_out": 0, "ends": {},
                      "obligations": {}, "discharged": {}, "mem_checks": 0}
        self.fn_seen = set()
        self.sites = set()
        self.loads_hook = None
        self.access_hook = None
        self.calls_hook = None
        self.kinds = None      # violation kinds that count
        self.on_end = None
        self.deadline = None

    # ------------------------------------------------------------ running
    def start(self, entry, args=()):
        st = State.__new__(State)
        st.frames = []
        st.owntop = 0
        st.mem = {}
        st.own = set()
        st.cs = Store()
        st.log = None
        st.globs = {}
        st.errno = 0
        st.trace = None
        st.choices = ()
        st.cpos = 0
        st.nrid = 0
        st.ghost = {}
        st.known = {}
        st.flags = frozenset()
        st.steps = 0
        st.natom = {}
        e = st.region("errno", 4, "tls", "zero")
        st.globs["errno"] = e.id
        e.cells[0] = (4, st.fresh("errno_before", 0, 133))      # left behind by whatever ran before
        self.push(st, entry, list(args), None, None)
        return st

    def run(self, entry, args=(), init=None):
        if entry not in self.p.defined:
            raise RuntimeError("analysis-broken: entry %s not found" % entry)
        st = self.start(entry, args)
        if init:
            init(self, st)
        work = [st]
        tick = 0
        if self.deadline is None:
            self.deadline = time.time() + self.cfg["time"]
        while work:
            if self.stats["paths"] >= self.cfg["max_paths"]:
                self.stats["truncated"] += len(work)
                self.note_end("max_paths")
                break
            if time.time() > self.deadline:
                self.stats["truncated"] += len(work)
                self.note_end("time")
                break
            if len(self.violations) >= self.cfg["max_violations"]:
                self.note_end("max_violations")
                break
            # depth first, but regularly the oldest partition, so that a loop
            # without a bound cannot starve the others
            tick += 1
            st = work.pop(0 if tick % 8 == 0 else -1)
            self.run_path(st, work)
        return self

    def note_end(self, why):
        self.stats["ends"][why] = self.stats["ends"].get(why, 0) + 1

    def run_path(self, st, work):
        steps = 0
        stats = self.stats
        H = self.H
        try:
            while True:
                fr = st.frames[-1]
                ins = fr.fn["blocks"][fr.blk][fr.idx]
                steps += 1
                o = ins["o"]
                save = None
                if o == "call":
                    fo = ins["f"]
                    nm = fo[1] if fo[0] == "f" else None
                    if nm is None or nm not in self.p.defined:
                        save = st.clone()
                try:
                    st.cpos = 0
                    H[o](self, st, fr, ins)
                    if st.choices:
                        st.choices = ()
                except NeedSplit as e:
                    if save is None:
                        save = st
                    stats["splits"] += 1
                    self.split(save, e.cond, work, ins)
                    stats["steps"] += steps
                    return
                except NeedChoice as e:
                    if save is None:
                        save = st
                    stats["choices"] += 1
                    loc = self.loc(save)
                    for i in range(e.n - 1, -1, -1):
                        s = save.clone()
                        s.choices = save.choices + (i,)
                        s.trace = (s.trace, (loc, "%s -> outcome %d" % (e.label, i)))
                        work.append(s)
                    stats["steps"] += steps
                    return
                if steps > self.cfg["path_steps"]:
                    raise PathEnd("path_steps")
                if (steps & 4095) == 0 and time.time() > self.deadline:
                    raise PathEnd("time")
        except Infeasible:
            stats["infeasible"] += 1
        except PathEnd as e:
            stats["paths"] += 1
            self.note_end(e.why)
            if e.why in ("path_steps", "visits", "time", "recursion", "site_fail"):
                stats["truncated"] += 1
            elif e.why == "end" and self.on_end:
                try:
                    self.on_end(self, st)
                except PathEnd as e2:
                    self.note_end("end:" + e2.why)
                except Violation as v:
                    self.report(st, v)
        except Violation as v:
            stats["paths"] += 1
            self.note_end("violation:" + v.kind)
            self.report(st, v)
        except Unsupported as u:
            stats["paths"] += 1
            k = "%s @ %s" % (u, self.loc(st))
            stats["unsupported"][k] = stats["unsupported"].get(k, 0) + 1
            self.note_end("unsupported")
        stats["steps"] += steps

    def split(self, save, cond, work, ins):
        loc = self.loc(save)
        lim = self.cfg.get("max_same_split")
        if lim:
            n = 0
            t = save.trace
            while t is not None:
                if t[1][0] == loc and t[1][1].__class__ is tuple:
                    n += 1
                t = t[0]
            if n >= lim:
                self.note_end("split_bound")
                self.stats["truncated"] += 1
                return
        for v in (False, True):
            s = save.clone()
            s.choices = save.choices
            try:
                s.assume(cond, v)
            except Infeasible:
                continue
            if len(s.cs.facts) >= self.cfg["poly_min"]:
                self.stats["poly"] = self.stats.get("poly", 0) + 1
                if poly.member(s.cs, nodes=12) is None:
                    self.stats["infeasible"] += 1
                    continue
            s.trace = (s.trace, (loc, (cond, v)))
            work.append(s)

    def loc(self, st):
        for fr in reversed(st.frames):
            try:
                ins = fr.fn["blocks"][fr.blk][fr.idx]
            except IndexError:
                continue
            l = ins.get("l")
            if l and l[0] and l[1]:
                return "%s:%d" % (l[0], l[1])
        return "?"

    def stack(self, st):
        out = []
        for fr in reversed(st.frames):
            try:
                l = fr.fn["blocks"][fr.blk][fr.idx].get("l")
            except IndexError:
                l = None
            out.append("%s (%s:%s)" % (fr.fn.get("dname", fr.fname), l[0] if l else "?", l[1] if l else "?"))
        return out

    def report(self, st, v):
        if st.ghost.get("inexact"):
            # the path depends on a float comparison decided only approximately
            self.stats["undecided"] = self.stats.get("undecided", 0) + 1
            return
        if st.ghost.get("consumed"):
            from . import libc
            if not all(libc.free_char(st, b, first) for b, first in st.ghost["consumed"]):
                # characters of a summarised number were examined afterwards
                self.stats["undecided"] = self.stats.get("undecided", 0) + 1
                return
        key = (v.kind, v.msg, v.ident, self.loc(st))
        known, hard = self.reported.get(key, (0, 0))
        if known > 8:
            self.stats["again"] = self.stats.get("again", 0) + 1
            return
        m = poly.member(st.cs)
        if m is False and hard < 8:
            m = poly.member(st.cs, nodes=2000, limit=4000)
        self.reported[key] = (known + (m is not None and m is not False), hard + (m is False))
        if m is None:
            # the partition is empty: no execution takes it
            self.stats["empty"] = self.stats.get("empty", 0) + 1
            return
        if m is False:
            # no member found within the limits: nothing to report, and the evidence says so
            self.stats["undecided"] = self.stats.get("undecided", 0) + 1
            return
        self.violations.append({"kind": v.kind, "msg": v.msg, "id": v.ident,
                                "loc": self.loc(st), "stack": self.stack(st),
                                "state": st, "member": m})

    def oblige(self, name, ok=True):
        self.stats["obligations"][name] = self.stats["obligations"].get(name, 0) + 1
        if ok:
            self.stats["discharged"][name] = self.stats["discharged"].get(name, 0) + 1

    # ------------------------------------------------------------ values
    def val(self, st, fr, o):
        k = o[0]
        if k == "v":
            return fr.regs[o[1]]
        if k == "i":
            return int(o[2])
        if k == "n":
            return 0
        if k == "g":
            return Ptr(self.glob(st, o[1]), o[2])
        if k == "f":
            return FnPtr(o[1])
        if k == "u":
            t = o[1]
            if isinstance(t, list):
                return tuple(UNDEF for _ in t)
            return UNDEF
        if k == "fp":
            return float(o[2])
        if k == "z":
            return self.zero(o[1])
        if k == "a":
            return tuple(self.val(st, fr, x) for x in o[1])
        if k == "p2i":
            return self.val(st, fr, o[1])
        if k == "byval":
            return self.val(st, fr, o[1])
        if k == "x":
            mt = re.match(r"ptr inttoptr \(i64 (-?\d+) to ptr\)", o[1])
            if mt:
                return int(mt.group(1)) & ((1 << 64) - 1)
        raise Unsupported("operand " + str(o)[:60])

    def zero(self, t):
        if isinstance(t, list):
            return tuple(self.zero(x[1]) for x in t)
        if t[0] == "f":
            return 0.0
        return 0

    def glob(self, st, name):
        r = st.globs.get(name)
        if r is None:
            g = self.p.globals.get(name)
            if g is None:
                raise Unsupported("global " + name)
            reg = st.region(name, g["size"], "tls" if g["tls"] else "global",
                            "sym" if g["decl"] else "zero", const=g["const"])
            reg.meta = {"internal": g["internal"], "line": g.get("line"), "file": g.get("file")}
            r = reg.id
            st.globs[name] = r
            for off, sz, op in g.get("init", ()):
                if op[0] == "zero":
                    continue
                if op[0] == "hex":
                    b = bytes.fromhex(op[1])
                    for i, x in enumerate(b):
                        reg.cells[off + i] = (1, x)
                else:
                    reg.cells[off] = (sz, self.val(st, None, op))
        return r

    def num(self, st, v, what="value"):
        """numeric (int or F) view of a value"""
        if isinstance(v, int) or isinstance(v, F):
            return v
        if isinstance(v, Cond):
            return 1 if st.truth(v.c) else 0
        if v is UNDEF:
            raise Violation("uninit", "use of uninitialised %s" % what)
        if isinstance(v, Ptr):
            return uf("addr", (v.r, v.o), 4096, (1 << 47), None, name="addr(%s)" % st.mem[v.r].name)
        if isinstance(v, FnPtr):
            return uf("fnaddr", (v.n,), 4096, 1 << 47, None)
        if isinstance(v, PtrByte):
            raise Unsupported("byte of a pointer")
        raise Unsupported("numeric view of %r" % (v,))

    # ------------------------------------------------------------ memory
    def check(self, st, p, size, what):
        """bounds/lifetime obligation; returns (region, off)"""
        self.stats["mem_checks"] += 1
        if not isinstance(p, Ptr):
            if p is UNDEF:
                raise Violation("uninit", "%s through uninitialised pointer" % what)
            if isinstance(p, F):
                p = simp(st.cs.norm(p))
            if isinstance(p, int) and p < 4096:
                raise Violation("nullderef", "%s through NULL pointer" % what)
            if isinstance(p, FnPtr):
                raise Violation("wild", "%s through a function pointer" % what)
            raise Violation("wild", "%s through invalid pointer %r" % (what, p))
        r = st.mem.get(p.r)
        if r is None:
            raise Violation("uaf", "%s of dead object" % what)
        if not r.alive:
            raise Violation("uaf", "%s of %s '%s' after its lifetime" % (what, r.kind, r.name))
        off = p.o
        if isinstance(off, F):
            off = st.cs.norm(off)
        if self.access_hook:
            self.access_hook(self, st, r, off, size, what)
        rs = r.size
        if isinstance(off, int) and isinstance(rs, int) and isinstance(size, int):
            if off < 0 or off + size > rs:
                raise Violation("oob", "%s of %d byte(s) at offset %d of '%s' (size %d)" % (what, size, off, r.name, rs))
            return r, off
        if isinstance(size, F) or size != 0:
            if not st.truth(("ge", dom.toF(off))):
                raise Violation("oob", "%s at negative offset of '%s'" % (what, r.name))
            if not st.truth(("ge", dom.toF(sub(rs, add(off, size))))):
                raise Violation("oob", "%s of %s byte(s) at offset %s beyond '%s' (size %s)" % (what, size, off, r.name, rs))
        off = st.cs.norm(off) if isinstance(off, F) else off
        return r, off

    def byte_of(self, st, v, sz, i):
        if v is UNDEF:
            return UNDEF
        if isinstance(v, int):
            return (v >> (8 * i)) & 255
        if isinstance(v, F):
            r = simp(st.cs.field(v, 8 * i, 8))
            if dom.CIPHER and isinstance(r, F) and dom.mixdepth(r) >= dom.KS_DEPTH:
                return dom.keystream(r)
            return r
        if isinstance(v, Cond):
            n = self.num(st, v)
            return (n >> (8 * i)) & 255
        if isinstance(v, (Ptr, FnPtr)):
            return PtrByte(v, i)
        if isinstance(v, float):
            import struct
            b = struct.pack("<d" if sz == 8 else "<f", v)
            return b[i]
        return UNDEF

    def concat(self, st, bs):
        if len(bs) == 1:
            return bs[0]
        if all(isinstance(b, int) for b in bs):
            return int.from_bytes(bytes(bs), "little")
        if isinstance(bs[0], PtrByte):
            v = bs[0].v
            if len(bs) == 8 and all(isinstance(b, PtrByte) and b.i == i and b.v == v for i, b in enumerate(bs)):
                return v
            return UNDEF
        r = 0
        for i, b in enumerate(bs):
            if b is UNDEF or isinstance(b, PtrByte):
                return UNDEF
            r = add(r, b, 1 << (8 * i))
        return r

    def dflt(self, st, r, off):
        d = r.default
        if d == "uninit":
            return UNDEF
        if d == "zero":
            return 0
        if d == "str":
            L = r.meta["L"]
            if st.truth(("ge", dom.toF(sub(sub(L, off), 1)))):
                return uf("chr", (r.id, off), 1, 255, None, name="%s[%s]" % (r.name, dom.short(dom.toF(off))))
            return 0
        if d == "sym":
            return uf("byte", (r.id, off), 0, 255, None, name="%s[%s]" % (r.name, dom.short(dom.toF(off))))
        if callable(d):
            return d(self, st, r, off)
        raise Unsupported("default " + str(d))

    def read_cells(self, st, r, off, size):
        """const offset, no log"""
        c = r.cells.get(off)
        if c is not None and c[0] == size:
            return c[1]
        if size == 1:
            if c is not None:
                return self.byte_of(st, c[1], c[0], 0)
            for d in range(1, 16):
                c = r.cells.get(off - d)
                if c is not None:
                    if c[0] > d:
                        return self.byte_of(st, c[1], c[0], d)
                    break
            return self.dflt(st, r, off)
        bs = [self.read_cells(st, r, off + i, 1) for i in range(size)]
        return self.concat(st, bs)

    def read(self, st, r, off, size):
        if r.default == "wstr" and size == 4:
            k = st.cs.div(off, 4) if isinstance(off, F) else off // 4
            if st.truth(("ge", dom.toF(sub(sub(r.meta["WL"], k), 1)))):
                return uf("wchr", (r.id, k), 1, (1 << 32) - 1, None, name="%s[%s]" % (r.name, dom.short(dom.toF(k))))
            return 0
        if isinstance(off, int) and not r.log:
            return self.read_cells(st, r, off, size)
        return self.read_log(st, r, r.log, off, size)

    def read_log(self, st, r, log, off, size):
        n = st.cs.norm
        for e in reversed(log):
            k = e[0]
            if k == "w":
                _, o, sz, v = e
                d = simp(n(sub(off, o)))
                if isinstance(d, int):
                    if d == 0 and sz == size:
                        return v
                    if d + size <= 0 or d >= sz:
                        continue
                    if size == 1:
                        return self.byte_of(st, v, sz, d)
                    return self.concat(st, [self.read_log(st, r, log, add(off, i), 1) for i in range(size)])
                if size == 1:
                    if not st.truth(("ge", d)):
                        continue
                    if st.truth(("ge", sub(d, sz))):
                        continue
                    for i in range(sz):
                        if i == sz - 1 or st.truth(("eq", sub(d, i))):
                            return self.byte_of(st, v, sz, i)
                if sz == size:
                    if st.decide(("eq", d)) is True:
                        return v
                    g = abs(d.c)
                    for _, q in d.t:
                        g = gcd(g, abs(q))
                    if g % sz == 0:          # equally aligned: identical or disjoint
                        if st.truth(("eq", d)):
                            return v
                        continue
                if st.decide(("ge", sub(d, sz))) is True or st.decide(("ge", sub(scale(d, -1), size))) is True:
                    continue
                if sz == size:
                    if st.truth(("eq", d)):
                        return v
                if st.truth(("ge", sub(d, sz))) or st.truth(("ge", sub(scale(d, -1), size))):
                    continue
                return self.concat(st, [self.read_log(st, r, log, add(off, i), 1) for i in range(size)])
            else:
                o, ln = e[1], e[2]
                d = n(sub(off, o))                       # off - o
                e_in0 = ("ge", dom.toF(d))
                e_in1 = ("ge", dom.toF(sub(ln, add(d, size))))  # o+ln - off - size >= 0
                a = st.decide(e_in0)
                b = st.decide(e_in1)
                if not (a and b):
                    # definitely disjoint?
                    if st.decide(("ge", dom.toF(sub(d, ln)))) is True:
                        continue
                    if st.decide(("ge", dom.toF(sub(scale(d, -1), size)))) is True:
                        continue
                    if size > 1:
                        return self.concat(st, [self.read_log(st, r, log, add(off, i), 1) for i in range(size)])
                    if not st.truth(e_in0):
                        continue
                    if not st.truth(e_in1):
                        continue
                if k == "cp":
                    _, _, _, snap, so = e
                    o2 = simp(n(add(so, d)))
                    if isinstance(o2, int) and not snap.log:
                        return self.read_cells(st, snap, o2, size)
                    return self.read_log(st, snap, snap.log, o2, size)
                if k == "set":
                    b = e[3]
                    if isinstance(b, int):
                        return int.from_bytes(bytes([b]) * size, "little")
                    return self.concat(st, [b] * size)
                if k == "fresh":
                    tag = e[3]
                    lo, hi = e[4] if len(e) > 4 else (0, 255)
                    bs = [uf("fb", (tag, add(d, i)), lo, hi, None, name="%s[%s]" % (tag, dom.short(dom.toF(add(d, i))))) for i in range(size)]
                    return self.concat(st, bs)
                raise Unsupported("log entry " + k)
        off = simp(n(off))
        if isinstance(off, int):
            return self.read_cells(st, r, off, size)
        if not r.cells:
            return self.concat(st, [self.dflt(st, r, add(off, i)) for i in range(size)])
        # symbolic offset into const cells
        lo, hi = st.cs.bounds(off)
        if lo is not None and hi is not None:
            # constant table?
            tab = self.table_lookup(st, r, off, size, lo, hi)
            if tab is not None:
                return tab
            if hi - lo <= 40:
                for i in range(lo, hi + 1):
                    if i == hi or st.truth(("eq", sub(off, i))):
                        return self.read_cells(st, r, i, size)
        if self.cfg.get("havoc_reads"):
            return st.fresh("sel", 0, (1 << (8 * size)) - 1)
        raise Unsupported("symbolic offset read of '%s'" % r.name)

    def table_lookup(self, st, r, off, size, lo, hi):
        """read of constant table entries at a symbolic, aligned offset"""
        if r.log:
            return None
        if size == 1:
            f, k = off, 1
        else:
            k = size
            f = st.cs.div(off, k)
            if simp(st.cs.norm(st.cs.mod(off, k))) != 0:
                return None
        l, h = st.cs.bounds(f)
        if l is None or h is None or h - l > 4096 or l < 0:
            return None
        vals = []
        for i in range(l, h + 1):
            v = self.read_cells(st, r, i * k, size)
            if isinstance(v, (Ptr, FnPtr)):
                if h - l > 40:
                    return None
                for j in range(l, h + 1):
                    if j == h or st.truth(("eq", sub(f, j))):
                        return self.read_cells(st, r, j * k, size)
            if not isinstance(v, int):
                return None
            vals.append(v)
        if len(set(vals)) == 1:
            return vals[0]
        if h - l <= 3:
            for j in range(l, h + 1):
                if j == h or st.truth(("eq", sub(f, j))):
                    return vals[j - l]
        if r.const:
            full = tuple(self.read_cells(st, r, i * k, size) for i in range(0, (r.size if isinstance(r.size, int) else 0) // k))
        else:
            full = (vals[0],) * l + tuple(vals)      # the part that can be read, as it is now
        return uf("tab", (full, f), min(full), max(full), lambda t, i: t[i], name="%s[%s]" % (r.name, dom.short(f)))

    def write(self, st, r, off, size, v):
        r = st.wr(r.id)
        if isinstance(off, int) and not r.log:
            self.write_cells(st, r, off, size, v)
            return
        r.log = r.log + (("w", off, size, v),)

    def write_cells(self, st, r, off, size, v):
        cells = r.cells
        c = cells.get(off)
        if c is not None and c[0] == size:
            cells[off] = (size, v)
            return
        self.clear_cells(st, r, off, size)
        cells[off] = (size, v)

    def clear_cells(self, st, r, off, size):
        cells = r.cells
        if len(cells) < 64 or size > 64:
            hit = [(o, c) for o, c in cells.items() if o < off + size and o + c[0] > off]
        else:
            hit = []
            for o in range(off - 15, off + size):
                c = cells.get(o)
                if c is not None and o + c[0] > off:
                    hit.append((o, c))
        for o, c in hit:
            del cells[o]
            if o < off or o + c[0] > off + size:
                for i in range(c[0]):
                    if not (off <= o + i < off + size):
                        cells[o + i] = (1, self.byte_of(st, c[1], c[0], i))

    def load(self, st, p, size, what="read"):
        r, off = self.check(st, p, size, what)
        return self.read(st, r, off, size)

    def store(self, st, p, size, v, what="write"):
        r, off = self.check(st, p, size, what)
        if r.const:
            raise Violation("constwrite", "write to constant '%s'" % r.name)
        self.write(st, r, off, size, v)

    def snap(self, st, r):
        """immutable snapshot of a region's contents"""
        s = r.clone()
        return s

    def copy(self, st, dst, src, n, what="memcpy"):
        n = simp(st.cs.norm(n)) if isinstance(n, F) else n
        if n == 0 and isinstance(n, int):
            return
        if isinstance(n, F) and st.truth(("eq", n)):
            return
        sr, so = self.check(st, src, n, what + " source read")
        dr, do = self.check(st, dst, n, what + " destination write")
        if dr.const:
            raise Violation("constwrite", "%s to constant '%s'" % (what, dr.name))
        n = simp(st.cs.norm(n)) if isinstance(n, F) else n
        if isinstance(n, int) and isinstance(so, int) and isinstance(do, int) and n <= 8192 \
                and not sr.log and not dr.log:
            items = []
            i = 0
            while i < n:
                c = sr.cells.get(so + i)
                if c is not None and i + c[0] <= n:
                    items.append((i, c[0], c[1]))
                    i += c[0]
                else:
                    items.append((i, 1, self.read_cells(st, sr, so + i, 1)))
                    i += 1
            dr = st.wr(dr.id)
            self.clear_cells(st, dr, do, n)
            for i, sz, v in items:
                dr.cells[do + i] = (sz, v)
            return
        snap = self.snap(st, sr)
        dr = st.wr(dr.id)
        dr.log = dr.log + (("cp", do, n, snap, so),)

    def fill(self, st, dst, n, entry, what="memset"):
        """entry: ('set', byte) or ('fresh', tag[,range])"""
        n = simp(st.cs.norm(n)) if isinstance(n, F) else n
        if isinstance(n, int) and n == 0:
            return
        if isinstance(n, F) and st.truth(("eq", n)):
            return
        dr, do = self.check(st, dst, n, what)
        if dr.const:
            raise Violation("constwrite", "%s to constant '%s'" % (what, dr.name))
        dr = st.wr(dr.id)
        n = simp(st.cs.norm(n)) if isinstance(n, F) else n
        if entry[0] == "set" and entry[1] == 0 and isinstance(do, int) and do == 0 and not isinstance(n, int) and \
                st.truth(("eq", dom.toF(sub(dr.size, n)))):
            dr.cells, dr.log, dr.default = {}, (), "zero"
            return
        if isinstance(n, int) and isinstance(do, int) and not dr.log and entry[0] == "set" and isinstance(entry[1], int):
            b = entry[1]
            if do == 0 and dr.size == n and b == 0:
                dr.cells = {}
                dr.default = "zero"
                return
            if n <= 8192:
                self.clear_cells(st, dr, do, n)
                i = 0
                while i < n:
                    w = 8 if (do + i) % 8 == 0 and n - i >= 8 else 1
                    dr.cells[do + i] = (w, int.from_bytes(bytes([b]) * w, "little"))
                    i += w
                return
        if isinstance(n, int) and isinstance(do, int) and not dr.log and entry[0] == "fresh" and n <= 4096:
            self.clear_cells(st, dr, do, n)
            lo, hi = entry[2] if len(entry) > 2 else (0, 255)
            for i in range(n):
                dr.cells[do + i] = (1, uf("fb", (entry[1], i), lo, hi, None, name="%s[%d]" % (entry[1], i)))
            return
        dr.log = dr.log + ((entry[0], do, n) + tuple(entry[1:]),)

    def cstr(self, st, p, limit=4096):
        """concrete C string at p, or None when not concrete"""
        out = []
        if not isinstance(p, Ptr):
            self.check(st, p, 1, "string read")
        o = p.o
        for i in range(limit):
            b = self.load(st, Ptr(p.r, add(o, i)), 1, "string read")
            if isinstance(b, F):
                b = simp(st.cs.norm(b))
            if not isinstance(b, int):
                return None
            if b == 0:
                return bytes(out)
            out.append(b)
        return None

    # ------------------------------------------------------------ calls
    def push(self, st, name, args, retid, retblk, extra=None):
        fn = self.p.funcs[name]
        depth = 0
        for f in st.frames:
            if f.fname == name:
                depth += 1
        if depth > self.cfg["recursion"]:
            raise PathEnd("recursion")
        self.fn_seen.add(name)
        fr = Frame()
        fr.fn = fn
        fr.fname = name
        fr.blk = 0
        fr.idx = 0
        fr.prev = None
        fr.regs = {}
        fr.allocas = []
        fr.retid = retid
        fr.retblk = retblk
        fr.visits = {}
        fr.varargs = None
        fr.onret = extra
        for i, a in enumerate(fn["args"]):
            v = args[i] if i < len(args) else UNDEF
            if "byval" in a and isinstance(v, Ptr):
                r = st.region("byval", a["byval"], "stack")
                fr.allocas.append(r.id)
                self.copy(st, Ptr(r.id, 0), v, a["byval"])
                v = Ptr(r.id, 0)
            fr.regs[a["id"]] = v
        if fn.get("vararg"):
            fr.varargs = tuple(args[len(fn["args"]):])
        if st.frames:
            pass
        st.frames.append(fr)

    def ret(self, st, v):
        fr = st.frames.pop()
        for a in fr.allocas:
            # stack objects die here; a later access through a leaked pointer is 'uaf'
            st.wr(a).alive = False
        if fr.onret is not None:
            v = fr.onret(self, st, v)
        if not st.frames:
            raise PathEnd("end")
        # caller frame may be shared with a sibling state: make it private
        i = len(st.frames) - 1
        if i < st.owntop or True:
            st.frames[i] = st.frames[i].clone()
            st.owntop = i
        cf = st.frames[i]
        if fr.retid is not None:
            cf.regs[fr.retid] = v
        if fr.retblk is not None:
            self.goto(st, cf, fr.retblk)
        else:
            cf.idx += 1

    def goto(self, st, fr, b):
        n = fr.visits.get(b, 0) + 1
        fr.visits[b] = n
        if n > self.cfg["max_visits"]:
            if self.cfg.get("endless"):
                raise Violation("endless", "a loop in %s does not end: %d rounds for an input of bounded size" % (fr.fname, n - 1), "every loop ends")
            raise PathEnd("visits")
        fr.prev = fr.blk
        fr.blk = b
        fr.idx = 0
        # phis in parallel
        blk = fr.fn["blocks"][b]
        if blk[0]["o"] == "phi":
            new = []
            i = 0
            while blk[i]["o"] == "phi":
                for pb, o in blk[i]["in"]:
                    if pb == fr.prev:
                        new.append((blk[i]["id"], self.val(st, fr, o)))
                        break
                i += 1
            for k, v in new:
                fr.regs[k] = v
            fr.idx = i

    def i_call(self, st, fr, ins):
        fo = ins["f"]
        if fo[0] == "f":
            name = fo[1]
        else:
            v = self.val(st, fr, fo)
            if isinstance(v, FnPtr):
                name = v.n
            elif v is UNDEF:
                raise Violation("uninit", "call through uninitialised function pointer")
            elif isinstance(v, int) and v < 4096:
                raise Violation("nullderef", "call through NULL function pointer")
            else:
                raise Unsupported("indirect call")
        args = [self.val(st, fr, a) if a[0] != "x" else None for a in ins["as"]]
        if self.calls_hook:
            self.calls_hook(self, st, name, args, ins)
        m = self.models.get(name)
        if m is None and name in self.p.defined:
            self.push(st, name, args, ins.get("id"), ins.get("nd"))
            return
        if m is None:
            for pat, fn in self.models.get("__patterns__", ()):
                if pat.match(name):
                    m = fn
                    break
        if m is None:
            raise Unsupported("call to unmodelled %s" % name)
        self.sites.add((name, self.loc(st)))
        nf = len(st.frames)
        rv = m(self, st, args, ins, name)
        if len(st.frames) != nf:
            return              # model pushed a frame
        fr = st.frames[-1]
        if "id" in ins:
            fr.regs[ins["id"]] = rv
        if "nd" in ins:
            self.goto(st, fr, ins["nd"])
        else:
            fr.idx += 1

    # ------------------------------------------------------------ instructions
    def i_alloca(self, st, fr, ins):
        n = self.val(st, fr, ins["n"])
        r = st.region("local", scale(n, ins["sz"]) if not isinstance(n, int) else n * ins["sz"], "stack",
                      site=ins.get("l"))
        fr.allocas.append(r.id)
        fr.regs[ins["id"]] = Ptr(r.id, 0)
        fr.idx += 1

    def i_load(self, st, fr, ins):
        p = self.val(st, fr, ins["p"])
        t = ins["t"]
        if isinstance(t, list):
            v = tuple(self.load_t(st, Ptr(p.r, add(p.o, o)) if isinstance(p, Ptr) else p, et) for o, et in t)
        else:
            if self.loads_hook:
                self.loads_hook(self, st, p, ins["sz"], False, ins)
            v = self.load(st, p, ins["sz"])
            v = self.coerce(st, v, t)
        fr.regs[ins["id"]] = v
        fr.idx += 1

    def load_t(self, st, p, t):
        if isinstance(t, list):
            return tuple(self.load_t(st, Ptr(p.r, add(p.o, o)), et) for o, et in t)
        sz = {"p": 8, "f64": 8, "f32": 4, "f80": 16}.get(t) or (width(t) + 7) // 8
        return self.coerce(st, self.load(st, p, sz), t)

    def coerce(self, st, v, t):
        if isinstance(v, F):
            v = simp(v)
        if t[0] == "f" and isinstance(v, int):
            import struct
            try:
                if t == "f64":
                    return struct.unpack("<d", v.to_bytes(8, "little"))[0]
                if t == "f32":
                    return struct.unpack("<f", v.to_bytes(4, "little"))[0]
            except Exception:
                raise Unsupported("float load")
        if t[0] == "f" and isinstance(v, F):
            raise Unsupported("symbolic float bits")
        if t[0] == "i" and isinstance(v, int) and v < 0:
            v &= (1 << width(t)) - 1
        return v

    def i_store(self, st, fr, ins):
        p = self.val(st, fr, ins["p"])
        v = self.val(st, fr, ins["v"])
        t = ins["vt"]
        if isinstance(t, list):
            for (o, et), x in zip(t, v):
                sz = {"p": 8, "f64": 8, "f32": 4}.get(et) or (width(et) + 7) // 8
                self.store(st, Ptr(p.r, add(p.o, o)), sz, x)
        else:
            if self.loads_hook:
                self.loads_hook(self, st, p, ins["sz"], True, ins)
            if dom.CIPHER and ins["sz"] == 1 and isinstance(v, F) and dom.mixdepth(v) >= dom.KS_DEPTH:
                v = self.byte_of(st, v, 1, 0)
            self.store(st, p, ins["sz"], v)
        fr.idx += 1

    def i_getelementptr(self, st, fr, ins):
        p = self.val(st, fr, ins["p"])
        off = ins["c"]
        for o, k in ins["x"]:
            i = self.val(st, fr, o)
            if i is UNDEF:
                raise Violation("uninit", "use of uninitialised index")
            if isinstance(i, Ptr):
                raise Unsupported("pointer index")
            i = self.num(st, i)
            w = width(o[1]) if False else 64
            if isinstance(i, F):
                i = st.cs.as_s(i, 64)
            elif i >= 1 << 63:
                i -= 1 << 64
            off = add(off, scale(i, k))
        fr.regs[ins["id"]] = self.padd(st, p, off)
        fr.idx += 1

    def enum_off(self, st, off):
        """partition on the value of a symbolic pointer offset with few values"""
        off = simp(st.cs.norm(off))
        if not isinstance(off, F):
            return off
        g = 0
        for _, c in off.t:
            g = gcd(g, abs(c))
        lo, hi = st.cs.bounds(off)
        if lo is None or hi is None or hi - lo > g * self.cfg["enum_ptr"]:
            return off
        lo += (off.c - lo) % g
        while lo < hi:
            if st.truth(("eq", sub(off, lo))):
                return lo
            lo += g
        return lo

    def enum_small(self, st, f, n):
        """partition on the value of f, at most n values"""
        f = simp(st.cs.norm(f))
        if not isinstance(f, F):
            return f
        lo, hi = st.cs.bounds(f)
        if lo is None or hi is None or hi - lo > n:
            raise Unsupported("enumeration of a large range")
        while lo < hi:
            if st.truth(("eq", sub(f, lo))):
                return lo
            lo += 1
        return lo

    def padd(self, st, p, off):
        off = simp(off)
        if isinstance(p, Ptr):
            if isinstance(off, F) and self.cfg.get("enum_ptr"):
                off = self.enum_off(st, off)
            return Ptr(p.r, simp(add(p.o, off)))
        if p is UNDEF:
            raise Violation("uninit", "pointer arithmetic on uninitialised pointer")
        if isinstance(p, (int, F)):
            r = add(p, off)
            return r & ((1 << 64) - 1) if isinstance(r, int) else r
        raise Unsupported("gep on %r" % (p,))

    def i_icmp(self, st, fr, ins):
        a = self.val(st, fr, ins["a"])
        b = self.val(st, fr, ins["b"])
        fr.regs[ins["id"]] = self.icmp(st, ins["pr"], a, b, ins["ot"])
        fr.idx += 1

    def icmp(self, st, pr, a, b, ot):
        pa = isinstance(a, (Ptr, FnPtr))
        pb = isinstance(b, (Ptr, FnPtr))
        if pa or pb:
            if pa and pb:
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r:
                    return self.cmpf(st, pr.replace("s", "u") if pr[0] == "s" else pr, a.o, b.o)
                if pr in ("eq", "ne"):
                    if isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.n == b.n:
                        return int(pr == "eq")
                    return int(pr == "ne")
                # ordering of unrelated objects: unspecified -> either
                return self.cmpf(st, pr, self.num(st, a), self.num(st, b))
            o = b if pa else a
            if o is UNDEF:
                raise Violation("uninit", "comparison with uninitialised pointer")
            if isinstance(o, F):
                o = simp(st.cs.norm(o))
            if isinstance(o, int) or True:
                if pr in ("eq", "ne"):
                    if isinstance(o, F):
                        return self.cmpf(st, pr, self.num(st, a), self.num(st, b))
                    return int(pr == "ne")
                return self.cmpf(st, pr, self.num(st, a), self.num(st, b))
        w = 64 if ot == "p" else width(ot)
        if a is UNDEF or b is UNDEF:
            raise Violation("uninit", "decision on uninitialised value")
        if w == 1 and (isinstance(a, Cond) or isinstance(b, Cond)):
            if isinstance(a, Cond) and isinstance(b, int):
                k, f = a.c
                inv = (pr == "eq") == (b & 1 == 0)
                if pr in ("eq", "ne"):
                    return Cond(NEGK[k], f) if inv else a
        a = self.num(st, a)
        b = self.num(st, b)
        if pr[0] == "s" and len(pr) == 3:
            a = st.cs.as_s(a, w)
            b = st.cs.as_s(b, w)
        elif pr in ("eq", "ne"):
            d = sub(a, b)
            if isinstance(d, F):
                d = st.cs.norm(d)
                if isinstance(d, F):
                    lo, hi = st.cs.frng(d)
                    M = 1 << w
                    if not (lo is not None and hi is not None and -M < lo and hi < M):
                        d = st.cs.as_u(d, w)
                    elif lo <= -M or hi >= M:
                        d = st.cs.as_u(d, w)
                    return self.cmpf(st, pr, d, 0) if isinstance(d, F) else int((d % M == 0) == (pr == "eq"))
            d &= (1 << w) - 1
            return int((d == 0) == (pr == "eq"))
        else:
            a = st.cs.as_u(a, w)
            b = st.cs.as_u(b, w)
        return self.cmpf(st, pr, a, b)

    def cmpf(self, st, pr, a, b):
        d = sub(a, b)
        if pr == "eq":
            c = ("eq", d)
        elif pr == "ne":
            c = ("ne", d)
        else:
            op = pr[1:]
            if op == "lt":
                c = ("lt", d)
            elif op == "ge":
                c = ("ge", d)
            elif op == "gt":
                c = ("lt", scale(d, -1))
            else:
                c = ("ge", scale(d, -1))
        if not isinstance(c[1], F):
            v = c[1]
            return int({"ge": v >= 0, "lt": v < 0, "eq": v == 0, "ne": v != 0}[c[0]])
        r = st.decide(c)
        if r is not None:
            return int(r)
        return Cond(*c)

    def i_br(self, st, fr, ins):
        s = ins["s"]
        if len(s) == 1:
            self.goto(st, fr, s[0])
            return
        c = self.val(st, fr, ins["c"])
        self.goto(st, fr, s[0] if self.istrue(st, c, "branch") else s[1])

    def istrue(self, st, c, what="condition"):
        if isinstance(c, int):
            return bool(c & 1)
        if isinstance(c, Cond):
            return st.truth(c.c)
        if c is UNDEF:
            raise Violation("uninit", "%s depends on uninitialised value" % what)
        if isinstance(c, F):
            c = st.cs.as_u(c, 1)
            if isinstance(c, int):
                return bool(c)
            return st.truth(("ge", sub(c, 1)))
        raise Unsupported("condition %r" % (c,))

    def i_switch(self, st, fr, ins):
        c = self.val(st, fr, ins["c"])
        if c is UNDEF:
            raise Violation("uninit", "switch on uninitialised value")
        c = self.num(st, c)
        for k, b in ins["cs"]:
            if isinstance(c, int):
                if c == int(k):
                    self.goto(st, fr, b)
                    return
            else:
                # unsigned 64-bit safe: compare via difference
                d = sub(c, int(k))
                lo, hi = st.cs.frng(d) if isinstance(d, F) else (d, d)
                r = self.icmp(st, "eq", c, int(k), "i32" if int(k) < 1 << 32 else "i64")
                if self.istrue(st, r):
                    self.goto(st, fr, b)
                    return
        self.goto(st, fr, ins["d"])

    def i_ret(self, st, fr, ins):
        v = self.val(st, fr, ins["v"]) if "v" in ins else None
        self.ret(st, v)

    def i_phi(self, st, fr, ins):
        raise Unsupported("stray phi")

    def i_select(self, st, fr, ins):
        c = self.val(st, fr, ins["c"])
        a = self.val(st, fr, ins["a"])
        b = self.val(st, fr, ins["b"])
        fr.regs[ins["id"]] = a if self.istrue(st, c, "select") else b
        fr.idx += 1

    def i_freeze(self, st, fr, ins):
        v = self.val(st, fr, ins["as"][0])
        fr.regs[ins["id"]] = v
        fr.idx += 1

    def i_unreachable(self, st, fr, ins):
        raise Violation("ub", "the end of a function that has to return a value (or code declared unreachable) is reached", "unreachable")

    def i_fence(self, st, fr, ins):
        fr.idx += 1

    def i_unsup(self, st, fr, ins):
        raise Unsupported("instruction " + ins["o"])

    def i_extractvalue(self, st, fr, ins):
        v = self.val(st, fr, ins["a"])
        for i in ins["ix"]:
            v = v[i] if v is not UNDEF else UNDEF
        fr.regs[ins["id"]] = v
        fr.idx += 1

    def i_insertvalue(self, st, fr, ins):
        a = self.val(st, fr, ins["a"])
        b = self.val(st, fr, ins["b"])

        def ins_(x, ix):
            if not ix:
                return b
            l = list(x)
            l[ix[0]] = ins_(l[ix[0]], ix[1:])
            return tuple(l)
        fr.regs[ins["id"]] = ins_(a, ins["ix"])
        fr.idx += 1

    def i_atomicrmw(self, st, fr, ins):
        p = self.val(st, fr, ins["p"])
        v = self.load(st, p, ins["sz"])
        b = self.val(st, fr, ins["b"])
        w = ins["sz"] * 8
        k = ins["k"]
        if k in ("add", "sub", "or", "and", "xor"):
            nv = self.binop(st, k, v, b, w, ins)
        elif k == "xchg":
            nv = b
        else:
            raise Unsupported("atomicrmw " + k)
        st.event("atomic", p.r)
        self.store(st, p, ins["sz"], nv)
        fr.regs[ins["id"]] = v
        fr.idx += 1

    # casts
    def i_cast(self, st, fr, ins):
        o = ins["o"]
        a = self.val(st, fr, ins["a"])
        s, t = ins["st"], ins["t"]
        fr.regs[ins["id"]] = self.cast(st, o, a, s, t)
        fr.idx += 1

    def cast(self, st, o, a, s, t):
        if a is UNDEF:
            return UNDEF
        if o in ("bitcast", "addrspacecast", "inttoptr"):
            return a
        if o == "ptrtoint":
            if width(t) == 64:
                return a
            a = self.num(st, a)
            return self.cast(st, "trunc", a, "i64", t)
        if o in ("zext", "sext", "trunc"):
            ws, wt = width(s), width(t)
            if isinstance(a, Cond):
                if o == "trunc":
                    return a
                n = 1 if st.truth(a.c) else 0
                return n if o == "zext" else ((1 << wt) - 1 if n else 0)
            if isinstance(a, (Ptr, FnPtr)):
                if wt == 64:
                    return a
                a = self.num(st, a)
            if isinstance(a, int):
                if o == "trunc":
                    return a & ((1 << wt) - 1)
                if o == "zext":
                    return a
                if a >> (ws - 1) & 1:
                    a -= 1 << ws
                return a & ((1 << wt) - 1)
            if o == "trunc":
                if wt == 1:
                    f = st.cs.mod(a, 2)
                    if isinstance(f, int):
                        return f
                    return Cond("ge", sub(f, 1))
                return a
            if o == "zext":
                return simp(st.cs.as_u(a, ws))
            return self.wrapi(st.cs.as_s(a, ws), wt)
        if o in ("uitofp", "sitofp"):
            ws = width(s)
            a = self.num(st, a)
            f = st.cs.as_u(a, ws) if o == "uitofp" else st.cs.as_s(a, ws)
            if isinstance(f, int):
                r = float(f)
                return f32(r) if t == "f32" else r
            lo, hi = st.cs.bounds(f)
            r = Flt(float(lo), float(hi), (f, ()))
            if t == "f32":
                r = Flt(f32(r.lo), f32(r.hi), (f, (("round", 0, 0, "f32"),)))
            return r
        if o in ("fptrunc", "fpext"):
            if isinstance(a, float):
                return f32(a) if o == "fptrunc" else a
            if o == "fpext":
                return a
            return Flt(f32(a.lo), f32(a.hi), a.src and (a.src[0], a.src[1] + (("round", 0, 0, "f32"),)))
        if o in ("fptoui", "fptosi"):
            if isinstance(a, float):
                return int(a) & ((1 << width(t)) - 1)
            raise Unsupported("fptoint of interval")
        raise Unsupported("cast " + o)

    def wrapi(self, v, w):
        v = simp(v)
        return v & ((1 << w) - 1) if isinstance(v, int) else v

    def i_fbin(self, st, fr, ins):
        a = self.val(st, fr, ins["a"])
        b = self.val(st, fr, ins["b"])
        o = ins["o"]
        if a is UNDEF or b is UNDEF:
            raise Violation("uninit", "floating operation on uninitialised value")
        fr.regs[ins["id"]] = self.fbin(o, a, b, ins["t"])
        fr.idx += 1

    @staticmethod
    def fop(o, x, y, t):
        if o == "round":
            r = x
        elif o == "fadd":
            r = x + y
        elif o == "fsub":
            r = x - y
        elif o == "fmul":
            r = x * y
        elif o == "fdiv":
            if y == 0:
                raise Unsupported("float division by zero")
            r = x / y
        else:
            raise Unsupported(o)
        return f32(r) if t == "f32" else r

    def fbin(self, o, a, b, t):
        op = self.fop
        fa, fb = isinstance(a, float), isinstance(b, float)
        if fa and fb:
            return op(o, a, b, t)
        al, ah = (a, a) if fa else (a.lo, a.hi)
        bl, bh = (b, b) if fb else (b.lo, b.hi)
        if o == "fdiv" and bl <= 0 <= bh:
            raise Unsupported("float division by interval with zero")
        xs = [op(o, x, y, t) for x in (al, ah) for y in (bl, bh)]
        src = None
        if fb and a.src:
            src = (a.src[0], a.src[1] + ((o, b, 0, t),))
        elif fa and b.src:
            src = (b.src[0], b.src[1] + ((o, a, 1, t),))
        return Flt(min(xs), max(xs), src)

    def fat(self, v, x):
        """value of the float v when its integer source is x"""
        r = float(x)
        for o, c, swap, t in v.src[1]:
            r = self.fop(o, c, r, t) if swap else self.fop(o, r, c, t)
        return r

    def i_fcmp(self, st, fr, ins):
        a = self.val(st, fr, ins["a"])
        b = self.val(st, fr, ins["b"])
        fr.regs[ins["id"]] = self.fcmp(st, ins["pr"][1:], a, b)
        fr.idx += 1

    def fcmp(self, st, op, a, b):
        al, ah = (a, a) if isinstance(a, float) else (a.lo, a.hi)
        bl, bh = (b, b) if isinstance(b, float) else (b.lo, b.hi)
        r = None
        if op == "lt":
            r = True if ah < bl else False if al >= bh else None
        elif op == "le":
            r = True if ah <= bl else False if al > bh else None
        elif op == "gt":
            r = True if al > bh else False if ah <= bl else None
        elif op == "ge":
            r = True if al >= bh else False if ah < bl else None
        elif op == "eq":
            r = True if al == ah == bl == bh else False if ah < bl or al > bh else None
        elif op == "ne":
            r = False if al == ah == bl == bh else True if ah < bl or al > bh else None
        if r is not None:
            return int(r)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Flt) and x.src and isinstance(y, float):
                # the ends of the integer source range, each exactly; the rest inexactly
                f = simp(st.cs.norm(x.src[0]))
                lo, hi = st.cs.bounds(f)
                for e in (hi, lo):
                    if st.truth(("eq", sub(f, e))):
                        v = self.fat(x, e)
                        return self.fcmp(st, op, *((v, y) if x is a else (y, v)))
                break
        st.ghost["inexact"] = True
        return Cond("ge", sub(uf("fcmp", (op, repr(a), repr(b)), 0, 1, None), 1))

    def i_fneg(self, st, fr, ins):
        a = self.val(st, fr, ins["as"][0])
        fr.regs[ins["id"]] = -a if isinstance(a, float) else Flt(-a.hi, -a.lo, a.src and (a.src[0], a.src[1] + (("fmul", -1.0, 0, "f64"),)))
        fr.idx += 1

    # integer binary operations
    def i_bin(self, st, fr, ins):
        a = self.val(st, fr, ins["a"])
        b = self.val(st, fr, ins["b"])
        t = ins["t"]
        fr.regs[ins["id"]] = self.binop(st, ins["o"], a, b, width(t), ins)
        fr.idx += 1

    def binop(self, st, o, a, b, w, ins):
        M = 1 << w
        if type(a) is int and type(b) is int:
            return self.cbin(o, a, b, w)
        if a is UNDEF or b is UNDEF:
            if o == "and" and (a == 0 or b == 0):
                return 0
            raise Violation("uninit", "arithmetic on uninitialised value")
        if w == 1 and (isinstance(a, Cond) or isinstance(b, Cond)):
            if o == "xor" and isinstance(b, int):
                return Cond(NEGK[a.c[0]], a.c[1]) if b & 1 else a
            x = self.istrue(st, a)
            if o == "and":
                return (b if x else 0)
            if o == "or":
                return (1 if x else b)
            y = self.istrue(st, b)
            return int(x != y)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if o == "sub" and isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.r == b.r:
                    return self.wrapi(sub(a.o, b.o), w)
                raise Unsupported("difference of unrelated pointers")
            if o == "add" and isinstance(a, Ptr) and not isinstance(b, Ptr):
                b = self.num(st, b)
                return self.padd(st, a, st.cs.as_s(b, 64))
            if o == "add" and not isinstance(a, Ptr):
                a = self.num(st, a)
                return self.padd(st, b, st.cs.as_s(a, 64))
            if o == "sub" and isinstance(a, Ptr):
                b = self.num(st, b)
                return self.padd(st, a, scale(st.cs.as_s(b, 64), -1))
            if o == "and" and isinstance(b, int) and b < 4096:
                # alignment test of an object address: allocations are 16-aligned
                if isinstance(a.o, int) and b <= 15:
                    return a.o & b
            a = self.num(st, a)
            b = self.num(st, b)
        a = self.num(st, a)
        b = self.num(st, b)
        cs = st.cs
        if o == "add":
            return self.wrapi(add(a, b), w)
        if o == "sub":
            return self.wrapi(sub(a, b), w)
        if o == "mul":
            return self.mul(st, a, b, w, ins)
        if isinstance(a, F):
            a = simp(cs.norm(a))
        if isinstance(b, F):
            b = simp(cs.norm(b))
        if type(a) is int and type(b) is int:
            return self.cbin(o, a % M, b % M, w)
        if o in ("udiv", "urem"):
            b = cs.as_u(b, w)
            a = cs.as_u(a, w)
            if isinstance(b, int):
                if b == 0:
                    raise Violation("divzero", "division by zero")
                return self.wrapi(cs.div(a, b, True) if o == "udiv" else cs.mod(a, b, True), w)
            return self.symdiv(st, o, a, b, w)
        if o in ("sdiv", "srem"):
            a = cs.as_s(a, w)
            b = cs.as_s(b, w)
            if not isinstance(b, int):
                lo, hi = cs.bounds(b)
                if lo is not None and lo > 0:
                    if not isinstance(a, int):
                        l2, _ = cs.bounds(a)
                    else:
                        l2 = a
                    if l2 is not None and l2 >= 0:
                        return self.symdiv(st, "udiv" if o == "sdiv" else "urem", a, b, w)
                if lo is not None and hi is not None and hi - lo <= 8:
                    for i in range(lo, hi + 1):
                        if i == hi or st.truth(("eq", sub(b, i))):
                            b = i
                            break
                else:
                    raise Unsupported("signed division by symbolic value")
            if b == 0:
                raise Violation("divzero", "division by zero")
            s = 1
            if b < 0:
                b, s = -b, -1
            if isinstance(a, int):
                q = abs(a) // b * (1 if a >= 0 else -1)
            elif st.truth(("ge", a)):
                q = cs.div(a, b, True)
            else:
                q = scale(cs.div(scale(a, -1), b, True), -1)
            if o == "sdiv":
                return self.wrapi(scale(q, s), w)
            return self.wrapi(sub(a, scale(q, b)), w)
        if o == "shl":
            b = cs.as_u(b, w)
            if isinstance(b, int):
                if b >= w:
                    raise Violation("shift", "shift amount %d out of range" % b)
                return self.wrapi(scale(a, 1 << b), w)
            k = self.enum(st, b, w)
            return self.wrapi(scale(a, 1 << k) if isinstance(a, F) else a << k, w)
        if o in ("lshr", "ashr"):
            b = cs.as_u(b, w)
            a = cs.as_u(a, w) if o == "lshr" else cs.as_s(a, w)
            if not isinstance(b, int):
                b = self.enum(st, b, w)
            if b >= w:
                raise Violation("shift", "shift amount %d out of range" % b)
            if isinstance(a, int):
                return self.wrapi(a >> b, w)
            return self.wrapi(cs.div(a, 1 << b), w)
        if o in ("and", "or", "xor"):
            return self.bitop(st, o, a, b, w)
        raise Unsupported("binop " + o)

    def enum(self, st, b, w):
        lo, hi = st.cs.bounds(b)
        if lo is None or hi is None or hi - lo > 64:
            if hi is None or hi >= w:
                if st.truth(("ge", sub(b, w))):
                    raise Violation("shift", "shift amount may reach operand width")
                hi = w - 1
        if hi >= w:
            if st.truth(("ge", sub(b, w))):
                raise Violation("shift", "shift amount may reach operand width")
            hi = w - 1
        for i in range(lo, hi + 1):
            if i == hi or st.truth(("eq", sub(b, i))):
                return i
        raise Infeasible()

    def symdiv(self, st, o, a, b, w):
        if st.truth(("eq", b)):
            raise Violation("divzero", "division by zero")
        lo, hi = st.cs.bounds(b)
        if lo == hi and lo is not None:
            return self.wrapi(st.cs.div(a, lo) if o == "udiv" else st.cs.mod(a, lo), w)
        if isinstance(a, F):
            al, ah = st.cs.bounds(a)
        else:
            al = ah = a
        lo = max(lo or 1, 1)
        q = uf("udivx", (a, b), 0, None if ah is None else ah // lo, lambda x, y: x // y)
        if o == "udiv":
            if hi is not None and al is not None:
                st.cs.assume(("ge", sub(q, al // hi)))
            return q
        r = uf("uremx", (a, b), 0, None if hi is None else hi - 1, lambda x, y: x % y)
        if isinstance(r, F):
            st.cs.assume(("ge", sub(sub(b, r), 1)))
            st.cs.assume(("ge", sub(a, r)))
        return r

    def mul(self, st, a, b, w, ins):
        M = 1 << w
        cs = st.cs
        if isinstance(a, F):
            a = simp(cs.norm(a))
        if isinstance(b, F):
            b = simp(cs.norm(b))
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, int):
            if isinstance(a, int):
                return a * b % M
            if b >= M >> 1:
                b -= M
            return self.wrapi(scale(a, b), w)
        sg = bool(ins and ins.get("nsw"))
        a = cs.as_s(a, w) if sg else cs.as_u(a, w)
        b = cs.as_s(b, w) if sg else cs.as_u(b, w)
        for x, y in ((a, b), (b, a)):
            lo, hi = cs.bounds(x)
            if lo is not None and hi is not None and hi - lo <= 1:
                if lo == hi or not st.truth(("ge", sub(x, hi))):
                    return self.wrapi(scale(y, lo), w)
                return self.wrapi(scale(y, hi), w)
        if repr(a) > repr(b):
            a, b = b, a
        return uf("mul", (a, b), None, None, lambda x, y: x * y)

    def bitop(self, st, o, a, b, w):
        cs = st.cs
        M = 1 << w
        if dom.CIPHER and o == "xor" and w == 32:
            a, b = cs.as_u(a, w), cs.as_u(b, w)
            if isinstance(a, int) and isinstance(b, int):
                return a ^ b
            if a == b:
                return 0
            if M - 1 not in (a, b):
                a, b = sorted((a, b), key=repr)
                return dom.mix("xor", (a, b), w)
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, int):
            b %= M
            if o == "and":
                return self.andc(st, a, b, w)
            if o == "or":
                return self.wrapi(sub(add(a, b), self.andc(st, a, b, w)), w)
            if b == M - 1:
                return self.wrapi(sub(-1, a), w)
            return self.wrapi(sub(add(a, b), scale(self.andc(st, a, b, w), 2)), w)
        a = cs.as_u(a, w)
        b = cs.as_u(b, w)
        if not isinstance(a, F) or not isinstance(b, F):
            return self.bitop(st, o, a, b, w) if isinstance(a, F) or isinstance(b, F) else self.cbin(o, a, b, w)
        if a == b:
            return 0 if o == "xor" else a
        # disjoint bits?
        for x, y in ((a, b), (b, a)):
            lo, hi = cs.bounds(x)
            if lo is not None and lo >= 0 and hi is not None:
                k = 1 << hi.bit_length()
                if simp(cs.norm(cs.mod(y, k))) == 0:
                    return 0 if o == "and" else simp(add(x, y))
        if dom.CIPHER:
            x, y = bitsof(a), bitsof(b)
            if x and y:
                fn = {"and": lambda x, y: x & y, "or": lambda x, y: x | y, "xor": lambda x, y: x ^ y}[o]
                r = 0
                for k in sorted(x.keys() | y.keys()):
                    p, q = x.get(k), y.get(k)
                    if p is None or q is None:
                        v = 0 if o == "and" else dom.fatom(q if p is None else p)
                    elif p == q:
                        v = 0 if o == "xor" else dom.fatom(p)
                    else:
                        v = uf(o, tuple(dom.fatom(z) for z in sorted((p, q))), 0, 1, fn)
                    r = add(r, scale(v, k))
                return simp(cs.norm(r))
        # small side: partition on its value
        for x, y in ((b, a), (a, b)):
            sx = cs.as_s(x, w) if False else x
            lo, hi = cs.bounds(sx)
            if lo is not None and hi is not None and hi - lo <= 3:
                for i in range(lo, hi + 1):
                    if i == hi or st.truth(("eq", sub(sx, i))):
                        return self.bitop(st, o, y, i, w)
            # all-ones / zero mask (sign smear)
            if hi == M - 1 and lo == 0:
                q = cs.as_s(x, w)
                l2, h2 = cs.bounds(q)
                if l2 == -1 and h2 == 0:
                    if st.truth(("ge", q)):
                        return self.bitop(st, o, y, 0, w)
                    return self.bitop(st, o, y, M - 1, w)
        if repr(a) > repr(b):
            a, b = b, a
        (al, ah), (bl, bh) = cs.bounds(a), cs.bounds(b)
        fn = {"and": lambda x, y: x & y, "or": lambda x, y: x | y, "xor": lambda x, y: x ^ y}[o]
        ka1, ka0 = known(al, ah, w)
        kb1, kb0 = known(bl, bh, w)
        if o == "or":
            k1, k0 = ka1 | kb1, ka0 & kb0
        elif o == "and":
            k1, k0 = ka1 & kb1, ka0 | kb0
        else:
            k1 = (ka1 & kb0) | (ka0 & kb1)
            k0 = (ka1 & kb1) | (ka0 & kb0)
        lo, hi = k1, (M - 1) & ~k0
        if o == "or":
            lo = max(lo, al, bl)
        if o == "and":
            hi = min(hi, ah, bh)
        if lo == hi:
            return lo
        r = uf(o, (a, b), 0, M - 1, fn)
        if isinstance(r, F):
            cs.assume(("ge", sub(r, lo)))
            cs.assume(("ge", sub(hi, r)))
        return simp(cs.norm(r))

    def andc(self, st, f, m, w):
        """f & m, constant mask"""
        if m == 0:
            return 0
        r = 0
        i = 0
        while i < w:
            if m >> i & 1:
                j = i
                while j < w and m >> j & 1:
                    j += 1
                if j == w:
                    if i == 0:
                        return simp(st.cs.as_u(f, w))
                    g = st.cs.div(st.cs.as_u(f, w), 1 << i)
                else:
                    g = st.cs.mod(st.cs.div(f, 1 << i), 1 << (j - i))
                r = add(r, scale(g, 1 << i))
                i = j
            else:
                i += 1
        return simp(st.cs.norm(r))

    def cbin(self, o, a, b, w):
        M = 1 << w
        if o == "add":
            return (a + b) % M
        if o == "sub":
            return (a - b) % M
        if o == "mul":
            return a * b % M
        if o == "and":
            return a & b
        if o == "or":
            return a | b
        if o == "xor":
            return a ^ b
        if o in ("shl", "lshr", "ashr"):
            if b >= w:
                raise Violation("shift", "shift amount %d out of range" % b)
            if o == "shl":
                return (a << b) % M
            if o == "lshr":
                return a >> b
            if a >> (w - 1):
                a -= M
            return (a >> b) % M
        if b == 0:
            raise Violation("divzero", "division by zero")
        if o == "udiv":
            return a // b
        if o == "urem":
            return a % b
        sa = a - M if a >> (w - 1) else a
        sb = b - M if b >> (w - 1) else b
        q = abs(sa) // abs(sb)
        if (sa < 0) != (sb < 0):
            q = -q
        if o == "sdiv":
            return q % M
        return (sa - q * sb) % M


def bitsof(f):
    """a form which is a sum of distinct powers of two of single bits -> {power: atom}"""
    if f.c:
        return None
    d = {}
    for x, k in f.t:
        at = dom.ATOMS[x]
        if k < 1 or k & (k - 1) or at.lo != 0 or at.hi != 1 or k in d:
            return None
        d[k] = x
    return d


def known(lo, hi, w):
    """known ones / zeros of an interval"""
    x = lo ^ hi
    n = x.bit_length()
    full = (1 << w) - 1
    mask = full & ~((1 << n) - 1)
    return lo & mask, ~lo & mask & full


H = {}
for _n in ("alloca", "load", "store", "getelementptr", "icmp", "br", "switch", "ret", "phi", "select",
           "freeze", "unreachable", "fence", "extractvalue", "insertvalue", "call", "fcmp", "fneg", "atomicrmw"):
    H[_n] = getattr(Engine, "i_" + _n)
for _n in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"):
    H[_n] = Engine.i_bin
for _n in ("fadd", "fsub", "fmul", "fdiv", "frem"):
    H[_n] = Engine.i_fbin
for _n in ("zext", "sext", "trunc", "bitcast", "inttoptr", "ptrtoint", "uitofp", "sitofp", "fptoui", "fptosi",
           "fptrunc", "fpext", "addrspacecast"):
    H[_n] = Engine.i_cast


class _HD(dict):
    def __missing__(self, k):
        return Engine.i_unsup


Engine.H = _HD(H)
