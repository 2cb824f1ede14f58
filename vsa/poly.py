"""Convex-polyhedra view of a constraint store: emptiness test and a member.

The store's linear facts, ranges and floor-division definitions are a system of
linear inequalities over integer atoms.  `member` decides whether it is empty
with an exact rational simplex (general form, Bland's rule) and integer
branching with a node limit; it returns None (empty), a dict (an integer
member) or False (undecided)."""
from fractions import Fraction
from heapq import heappop, heappush
from math import gcd
from . import dom
from .dom import F, ATOMS


class Tableau:
    def __init__(self):
        self.rows = {}      # basic var -> {nonbasic: coeff}
        self.lo = {}
        self.hi = {}
        self.val = {}
        self.extra = ()     # rows added while branching

    def clone(self):
        t = Tableau()
        t.rows = {b: dict(r) for b, r in self.rows.items()}
        t.lo = dict(self.lo)
        t.hi = dict(self.hi)
        t.val = dict(self.val)
        t.extra = self.extra
        return t

    def var(self, v, lo, hi):
        self.lo[v] = lo
        self.hi[v] = hi
        x = 0
        if lo is not None and x < lo:
            x = lo
        if hi is not None and x > hi:
            x = hi
        self.val[v] = Fraction(x)

    def row(self, s, coef, lo, hi):
        """s = sum coef, lo <= s <= hi"""
        r = {}
        for v, c in coef.items():
            if v in self.rows:
                for w, d in self.rows[v].items():
                    r[w] = r.get(w, 0) + c * d
            else:
                r[v] = r.get(v, 0) + c
        r = {v: Fraction(c) for v, c in r.items() if c}
        self.rows[s] = r
        self.lo[s] = lo
        self.hi[s] = hi
        self.val[s] = sum((c * self.val[v] for v, c in r.items()), Fraction(0))

    def bound(self, v, lo, hi):
        if lo is not None and (self.lo[v] is None or lo > self.lo[v]):
            self.lo[v] = lo
        if hi is not None and (self.hi[v] is None or hi < self.hi[v]):
            self.hi[v] = hi
        if self.lo[v] is not None and self.hi[v] is not None and self.lo[v] > self.hi[v]:
            return False
        if v not in self.rows:
            x = self.val[v]
            if self.lo[v] is not None and x < self.lo[v]:
                self.update(v, Fraction(self.lo[v]))
            elif self.hi[v] is not None and x > self.hi[v]:
                self.update(v, Fraction(self.hi[v]))
        return True

    def update(self, v, x):
        d = x - self.val[v]
        self.val[v] = x
        for b, r in self.rows.items():
            c = r.get(v)
            if c:
                self.val[b] += c * d

    def pivot(self, b, n):
        r = self.rows.pop(b)
        c = r.pop(n)
        nr = {v: -x / c for v, x in r.items()}
        nr[b] = 1 / c
        for ob, orow in self.rows.items():
            k = orow.pop(n, None)
            if k:
                for v, x in nr.items():
                    y = orow.get(v, 0) + k * x
                    if y:
                        orow[v] = y
                    else:
                        orow.pop(v, None)
        self.rows[n] = nr

    def check(self, limit=400):
        for _ in range(limit):
            bad = None
            for b in sorted(self.rows):
                x = self.val[b]
                if self.lo[b] is not None and x < self.lo[b]:
                    bad = (b, Fraction(self.lo[b]), True)
                    break
                if self.hi[b] is not None and x > self.hi[b]:
                    bad = (b, Fraction(self.hi[b]), False)
                    break
            if bad is None:
                return True
            b, t, up = bad
            r = self.rows[b]
            piv = None
            for v in sorted(r):
                c = r[v] if up else -r[v]
                if c > 0 and (self.hi[v] is None or self.val[v] < self.hi[v]) or \
                        c < 0 and (self.lo[v] is None or self.val[v] > self.lo[v]):
                    piv = v
                    break
            if piv is None:
                return False
            d = (t - self.val[b]) / r[piv]
            self.update(piv, self.val[piv] + d)
            self.pivot(b, piv)
        return None


def system(cs):
    """(variables {atom: (lo,hi)}, constraints [form >= 0], disequalities)"""
    cons = []
    for f in cs.facts:
        f = cs.norm(f)
        if isinstance(f, F):
            cons.append(f)
        elif f < 0:
            return None
    ne = []
    for f in cs.ne:
        f = cs.norm(f)
        if isinstance(f, F):
            ne.append(f)
        elif f == 0:
            return None
    todo = set()
    for f in cons + ne:
        for a, _ in f.t:
            todo.add(a)
    for a, x in cs.sub.items():
        x = cs.norm(x)
        if isinstance(x, F):
            lo, hi = cs.arng(a)
            if lo is not None:
                cons.append(dom.toF(dom.sub(x, lo)))
            if hi is not None:
                cons.append(dom.toF(dom.sub(hi, x)))
            for b, _ in x.t:
                todo.add(b)
        if ATOMS[a].kind == "div":
            # a quotient whose value was settled still obeys its definition
            g, k = ATOMS[a].d
            r = dom.add(cs.norm(g), x, -k)
            for f in (r, dom.sub(k - 1, r)):
                if isinstance(f, F):
                    cons.append(f)
                    for b, _ in f.t:
                        todo.add(b)
                elif f < 0:
                    return None
    for a in cs.rng:
        if a not in cs.sub and ATOMS[a].kind == "div":
            todo.add(a)
    seen = {}
    ops = {}
    cong = []

    def operands(a, v):
        """uninterpreted term a, of value v: relate it to the other terms of the same operation"""
        op, args = ATOMS[a].d
        same = ops.setdefault((op, len(args)), [])
        na = tuple(cs.norm(x) if isinstance(x, F) else x for x in args)
        for nb, vb in same:
            if all(x == y or _numlike(x) and _numlike(y) and not (x.__class__ is y.__class__ is int)
                   for x, y in zip(na, nb)):
                cong.append((na, nb, dom.sub(v, vb)))
                for x in na + nb:
                    if isinstance(x, F):
                        todo.update(c for c, _ in x.t)
        same.append((na, v))
    for a, x in cs.sub.items():
        if ATOMS[a].kind == "uf" and ATOMS[a].deps:
            x = cs.norm(x)
            operands(a, x)
            if isinstance(x, F):
                todo.update(c for c, _ in x.t)
    while todo:
        a = todo.pop()
        if a in seen:
            continue
        if ATOMS[a].kind == "uf" and ATOMS[a].deps:
            operands(a, dom.fatom(a))
        lo, hi = cs.arng(a)
        if lo is not None and hi is not None and lo > hi:
            return None
        seen[a] = (lo, hi)
        if ATOMS[a].kind == "div":
            g, k = ATOMS[a].d
            g = cs.norm(g)
            r = dom.add(g, dom.fatom(a), -k)
            cons.append(dom.toF(r))
            cons.append(dom.toF(dom.sub(k - 1, r)))
            for b, _ in dom.toF(r).t:
                todo.add(b)
    return seen, [f for f in cons if f.t], ne, cong


def _numlike(x):
    return isinstance(x, (F, int))


def reduce(vs, cons, ne):
    """integer-tighten the rows and eliminate equalities with a unit coefficient;
    None if that shows emptiness, else (bounds, {key: [terms, lo, hi]}, disequalities, eliminated)"""
    gone = []
    vs = dict(vs)
    for _ in range(40):
        rows = {}
        for f in cons:
            if not f.t:
                if f.c < 0:
                    return None
                continue
            if len(f.t) == 1:
                a, c = f.t[0]
                lo, hi = vs[a]
                if c > 0:
                    x = -(f.c // c)
                    lo = x if lo is None or x > lo else lo
                else:
                    x = f.c // (-c)
                    hi = x if hi is None or x < hi else hi
                if lo is not None and hi is not None and lo > hi:
                    return None
                vs[a] = (lo, hi)
                continue
            g = 0
            for _, c in f.t:
                g = gcd(g, c)
            pos = f.t[0][1] > 0
            key = tuple((a, c // g if pos else -c // g) for a, c in f.t)
            r = rows.setdefault(key, [None, None])
            if pos:
                x = -(f.c // g)                 # key >= -c/g, rounded up
                r[0] = x if r[0] is None or x > r[0] else r[0]
            else:
                x = f.c // g
                r[1] = x if r[1] is None or x < r[1] else r[1]
            if r[0] is not None and r[1] is not None and r[0] > r[1]:
                return None
        e = None
        for a, (lo, hi) in vs.items():
            if lo is not None and lo == hi:
                e = (a, lo)
                break
        if e is None:
            for key, (lo, hi) in rows.items():
                if lo is not None and lo == hi:
                    for a, c in key:
                        if c == 1 or c == -1:
                            # c*a + rest == lo
                            e = (a, dom.simp(F(c * lo, tuple((b, -d * c) for b, d in key if b != a))))
                            break
                    if e is not None:
                        break
        cons = []
        for key, (lo, hi) in rows.items():
            if lo is not None:
                cons.append(F(-lo, key))
            if hi is not None:
                cons.append(F(hi, tuple((a, -c) for a, c in key)))
        if e is None:
            return vs, rows, ne, gone
        a, x = e
        lo, hi = vs.pop(a)
        gone.append((a, x))

        def put(f):
            for b, c in f.t:
                if b == a:
                    return dom.toF(dom.add(F(f.c, tuple((w, d) for w, d in f.t if w != a)), x, c))
            return f
        cons = [put(f) for f in cons]
        if isinstance(x, F):
            if lo is not None:
                cons.append(dom.toF(dom.sub(x, lo)))
            if hi is not None:
                cons.append(dom.toF(dom.sub(hi, x)))
        n2 = []
        for f in ne:
            f = put(f)
            if f.t:
                n2.append(f)
            elif f.c == 0:
                return None
        ne = n2
    return vs, rows, ne, gone


def _congruence(cong, gone):
    """[(differences of the operands, difference of the results)] over the kept atoms"""
    put = dict()
    for a, x in reversed(gone):
        r = x
        if isinstance(x, F):
            r = x.c
            for b, c in x.t:
                r = dom.add(r, put.get(b, dom.fatom(b)), c)
        put[a] = r

    def ex(f):
        if not isinstance(f, F):
            return f
        r = f.c
        for b, c in f.t:
            r = dom.add(r, put.get(b, dom.fatom(b)), c)
        return r
    out = []
    for na, nb, v in cong:
        args = tuple(ex(dom.sub(x, y)) for x, y in zip(na, nb) if x != y)
        if any(not isinstance(x, F) and x != 0 for x in args):
            continue
        out.append((args, ex(v)))
    return out, ex


def _full(m, gone):
    for a, x in reversed(gone):
        m[a] = x if not isinstance(x, F) else x.c + sum(c * m.get(b, 0) for b, c in x.t)
    return m


def _round(t, vs, rows, divs):
    """integer points next to the rational one (atoms rounded, quotients recomputed) that satisfy
    every row; a disequality may still fail"""
    isdiv = {a for a, _, _ in divs}
    for mode in (0, 1, 2):
        m = {}
        for v, (lo, hi) in vs.items():
            if v in isdiv:
                continue
            x = t.val[v]
            if x.denominator != 1:
                x = round(x) if mode == 0 else x.numerator // x.denominator + (mode == 2)
            m[v] = int(x)
        for a, g, k in divs:
            m[a] = 0
            m[a] = (g if not isinstance(g, F) else g.c + sum(c * m.get(b, 0) for b, c in g.t)) // k
        if all(_in(m[v], lo, hi) for v, (lo, hi) in vs.items()) and \
                all(_in(sum(c * m[a] for a, c in key), lo, hi) for key, (lo, hi) in rows.items()):
            yield m


def _ok(m, ne, sat):
    return all(_mv(f, m) != 0 for f in ne) and \
        all(_mv(v, m) == 0 or any(_mv(x, m) != 0 for x in args) for args, v in sat)


def _in(x, lo, hi):
    return (lo is None or x >= lo) and (hi is None or x <= hi)


def _mv(f, m):
    return f if not isinstance(f, F) else f.c + sum(c * m[a] for a, c in f.t)


def _addrow(t, k, f, lo, hi):
    """lo <= f <= hi as a new row (or bound); the next free row number, or None if empty at once"""
    lo = None if lo is None else lo - f.c
    hi = None if hi is None else hi - f.c
    if len(f.t) == 1:
        v, c = f.t[0]
        if c < 0:
            lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
            c = -c
        lo = None if lo is None else -(-lo // c)
        hi = None if hi is None else hi // c
        if lo is not None and hi is not None and lo > hi:
            return None
        return k if t.bound(v, lo, hi) else None
    t.row(k, dict(f.t), lo, hi)
    t.extra = t.extra + ((F(0, f.t), lo, hi),)
    return k + 1


def member(cs, nodes=60, limit=400):
    s = system(cs)
    if s is None:
        return None
    if len(s[0]) > 120 or len(s[1]) > 300:
        return False
    cong = s[3]
    s = reduce(*s[:3])
    if s is None:
        return None
    vs, rows, ne, gone = s
    sat, ex = _congruence(cong, gone)
    divs = [(a, ex(cs.norm(ATOMS[a].d[0])), ATOMS[a].d[1]) for a in sorted(vs) if ATOMS[a].kind == "div"]
    t = Tableau()
    for v, (lo, hi) in vs.items():
        t.var(v, lo, hi)
    k = 1 << 40
    for key, (lo, hi) in rows.items():
        t.row(k, dict(key), lo, hi)
        k += 1
    # alternatives with the fewest fractional branchings first, newest first
    work = [(0, 0, t)]
    seq = 0
    cnt = 0
    unk = False
    while work:
        frac, _, t = heappop(work)
        cnt += 1
        if cnt > nodes:
            return False
        r = t.check(limit)
        if r is False:
            continue
        if r is None:
            unk = True
            continue
        fr = None
        for v in vs:
            if t.val[v].denominator != 1:
                fr = v
                break
        if fr is None:
            m = {v: int(t.val[v]) for v in vs}
        else:
            m = None
            for x in _round(t, vs, rows, divs):
                if _ok(x, ne, sat):
                    return _full(x, gone)
                if m is None and all(_in(x[v], t.lo[v], t.hi[v]) for v in vs) and \
                        all(_in(_mv(f, x), lo, hi) for f, lo, hi in t.extra):
                    m = x
        if m is None:
            x = t.val[fr]
            lo = x.numerator // x.denominator
            a = t.clone()
            b = t
            if a.bound(fr, None, lo):
                seq -= 1
                heappush(work, (frac + 1, seq, a))
            if b.bound(fr, lo + 1, None):
                seq -= 1
                heappush(work, (frac + 1, seq, b))
            continue
        bad = None
        for f in ne:
            if _mv(f, m) == 0:
                bad = f
                break
        if bad is not None:
            for lo, hi in ((1, None), (None, -1)):
                a = t.clone()
                k2 = _addrow(a, k, bad, lo, hi)
                if k2 is not None:
                    k = k2
                    seq -= 1
                    heappush(work, (frac, seq, a))
            continue
        for args, val in sat:
            if _mv(val, m) != 0 and all(_mv(x, m) == 0 for x in args):
                bad = (args, val)
                break
        if bad is not None:
            # equal operands give equal results: the operands differ, or the results agree
            args, val = bad
            for x in args:
                if isinstance(x, F):
                    for lo, hi in ((1, None), (None, -1)):
                        a = t.clone()
                        k2 = _addrow(a, k, x, lo, hi)
                        if k2 is not None:
                            k = k2
                            seq -= 1
                            heappush(work, (frac, seq, a))
            if isinstance(val, F):
                a = t.clone()
                k2 = _addrow(a, k, val, 0, 0)
                if k2 is not None:
                    k = k2
                    seq -= 1
                    heappush(work, (frac, seq, a))
            continue
        return _full(m, gone)
    return False if unk else None
