"""Numeric abstract domain.

A symbolic integer is an affine form  c + sum(k_i * a_i)  over *atoms*.  An atom
is an input (unknown integer with a range) or a derived term: floor division of
a form by a constant ('div') or an uninterpreted operation ('uf', value
numbered by its operands).  A machine integer of width w is represented by any
form congruent to it modulo 2^w; as_u()/as_s() give the unsigned/signed
mathematical value.

A constraint store keeps, per abstract state: atom ranges, solved equalities
(atom := form), linear facts (form >= 0) and disequalities.  All inference is
interval/linear rewriting -- there is no solver.
"""
from fractions import Fraction
from math import gcd

INF = None


class F:
    """affine form"""
    __slots__ = ("c", "t", "_h")

    def __init__(self, c, t):
        self.c = c
        self.t = t          # tuple of (atom, coef), sorted by atom id
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.c, self.t))
        return self._h

    def __eq__(self, o):
        return isinstance(o, F) and self.c == o.c and self.t == o.t

    def __repr__(self):
        s = []
        for a, k in self.t:
            s.append(("%d*" % k if k != 1 else "") + ATOMS[a].name)
        if self.c or not s:
            s.append(str(self.c))
        return "(" + "+".join(s) + ")"


class Atom:
    __slots__ = ("id", "name", "lo", "hi", "kind", "d", "deps", "ev")

    def __init__(self, name, lo, hi, kind, d, ev=None):
        self.name = name
        self.lo = lo
        self.hi = hi
        self.kind = kind    # 'in' | 'div' | 'uf'
        self.d = d
        self.ev = ev


ATOMS = []
MEMO = {}
DIVS = {}


# cipher mode: 32-bit exclusive-ors yield opaque value-numbered 'mix' atoms that
# remember their depth and root inputs, and wrap-around is kept as a quotient
# instead of a partition; bytes of deep mixes become keystream bytes, eight bit
# atoms each
CIPHER = False
MIX = {}        # atom -> (depth, roots)
KS = []         # keystream byte -> (roots it was computed from, bit atoms, the form it stands for)
KSBIT = {}      # bit atom -> (keystream byte, bit)
KS_DEPTH = 12


def reset():
    ATOMS.clear()
    MEMO.clear()
    DIVS.clear()
    MIX.clear()
    del KS[:]
    KSBIT.clear()


def roots_of(f, depth=0):
    """what a value is computed from: input atoms (their number) and keystream
    bytes (-1 - number)"""
    if not isinstance(f, F):
        return frozenset()
    s = set()
    for a, _ in f.t:
        m = MIX.get(a)
        if m is not None:
            s |= m[1]
            continue
        k = KSBIT.get(a)
        if k is not None:
            s.add(-1 - k[0])
            continue
        at = ATOMS[a]
        if at.kind == "div":
            s |= roots_of(at.d[0], depth + 1)
        elif at.kind == "uf" and any(isinstance(x, F) for x in at.d[1]):
            for x in at.d[1]:
                s |= roots_of(x, depth + 1)
        else:
            s.add(a)
    return frozenset(s)


def mixdepth(f):
    if not isinstance(f, F):
        return 0
    d = 0
    for a, _ in f.t:
        m = MIX.get(a)
        if m is not None:
            d = max(d, m[0])
        elif ATOMS[a].kind == "div":
            d = max(d, mixdepth(ATOMS[a].d[0]))
    return d


def mix(op, args, w):
    key = ("mix", op, args, w)
    a = MEMO.get(key)
    if a is None:
        a = new_atom("%s#%d" % (op, len(ATOMS)), 0, (1 << w) - 1, "uf", (op, args))
        MEMO[key] = a
        r = frozenset()
        for x in args:
            r |= roots_of(x)
        MIX[a] = (1 + max(mixdepth(x) for x in args), r)
    return fatom(a)


def keystream(f):
    """byte f of the cipher's output"""
    key = ("ks", f)
    r = MEMO.get(key)
    if r is None:
        n = len(KS)
        bits = [new_atom("ks%d.%d" % (n, j), 0, 1, "in") for j in range(8)]
        KS.append((roots_of(f), bits, f))
        for j, x in enumerate(bits):
            KSBIT[x] = (n, j)
        r = F(0, tuple((x, 1 << j) for j, x in enumerate(bits)))
        MEMO[key] = r
    return r


def new_atom(name, lo, hi, kind="in", d=None, ev=None):
    a = Atom(name, lo, hi, kind, d, ev)
    a.id = len(ATOMS)
    a.deps = frozenset()
    ATOMS.append(a)
    return a.id


def fatom(aid):
    return F(0, ((aid, 1),))


def const(c):
    return F(c, ())


def toF(v):
    return v if isinstance(v, F) else F(v, ())


def simp(f):
    """form -> int if constant"""
    return f.c if isinstance(f, F) and not f.t else f


def _merge(t1, t2, k2):
    d = dict(t1)
    for a, k in t2:
        n = d.get(a, 0) + k * k2
        if n:
            d[a] = n
        else:
            d.pop(a, None)
    return tuple(sorted(d.items()))


def add(x, y, ky=1):
    """x + ky*y (ints or forms) -> int or form"""
    if not isinstance(x, F):
        if not isinstance(y, F):
            return x + ky * y
        x = F(x, ())
    if not isinstance(y, F):
        return F(x.c + ky * y, x.t) if x.t else x.c + ky * y
    t = _merge(x.t, y.t, ky)
    c = x.c + ky * y.c
    return F(c, t) if t else c


def sub(x, y):
    return add(x, y, -1)


def scale(x, k):
    if not isinstance(x, F):
        return x * k
    if k == 0:
        return 0
    return F(x.c * k, tuple((a, q * k) for a, q in x.t))


def neg(x):
    return scale(x, -1)


def deps_of(f):
    s = set()
    if isinstance(f, F):
        for a, _ in f.t:
            s.add(a)
            s |= ATOMS[a].deps
    return frozenset(s)


class Infeasible(Exception):
    pass


class NeedSplit(Exception):
    """abstract condition undecided: partition the state on it"""

    def __init__(self, cond):
        self.cond = cond


class Store:
    """constraint store"""
    __slots__ = ("rng", "sub", "facts", "ne", "ver", "_nc")

    def __init__(self):
        self.rng = {}
        self.sub = {}
        self.facts = ()
        self.ne = frozenset()
        self._nc = {}

    def clone(self):
        s = Store.__new__(Store)
        s.rng = dict(self.rng)
        s.sub = dict(self.sub)
        s.facts = self.facts
        s.ne = self.ne
        s._nc = self._nc
        return s

    # ---- normalisation under solved equalities
    def norm(self, f):
        if not isinstance(f, F):
            return f
        if not self.sub:
            return simp(f)
        subd = self.sub
        hit = False
        for a, _ in f.t:
            if a in subd or (ATOMS[a].deps and not ATOMS[a].deps.isdisjoint(subd)):
                hit = True
                break
        if not hit:
            return simp(f)
        r = self._nc.get(f)
        if r is not None:
            return r
        r = f.c
        for a, k in f.t:
            r = add(r, self._natom(a, 0), k)
        self._nc[f] = r
        return r

    def _natom(self, a, depth):
        if depth > 12:
            return fatom(a)
        s = self.sub.get(a)
        if s is not None:
            if isinstance(s, F):
                r = s.c
                for b, k in s.t:
                    r = add(r, self._natom(b, depth + 1) if b != a else fatom(b), k)
                return r
            return s
        at = ATOMS[a]
        if at.deps and not at.deps.isdisjoint(self.sub):
            if at.kind == "div":
                f, k = at.d
                nf = self._nf(f, depth + 1, a)
                if nf != f:
                    return self.div(nf, k)
            elif at.kind == "uf":
                op, args = at.d
                na = tuple(self._nf(x, depth + 1, a) if isinstance(x, F) else x for x in args)
                if na != args:
                    return refold(self, at, op, na)
        return fatom(a)

    def _nf(self, f, depth, self_a):
        r = f.c
        for b, k in f.t:
            r = add(r, fatom(b) if b == self_a else self._natom(b, depth), k)
        return simp(r)

    # ---- ranges
    def arng(self, a, depth=0):
        at = ATOMS[a]
        r = self.rng.get(a)
        lo, hi = r if r is not None else (at.lo, at.hi)
        if at.kind == "div" and depth < 4:
            f, k = at.d
            l2, h2 = self.frng(f, depth + 1)
            if l2 is not None:
                l2 = l2 // k
                if lo is None or l2 > lo:
                    lo = l2
            if h2 is not None:
                h2 = h2 // k
                if hi is None or h2 < hi:
                    hi = h2
        elif at.kind == "uf" and depth < 3 and at.d[0] in UFRNG:
            l2, h2 = UFRNG[at.d[0]](self, at.d[1], depth + 1)
            if l2 is not None and (lo is None or l2 > lo):
                lo = l2
            if h2 is not None and (hi is None or h2 < hi):
                hi = h2
        return lo, hi

    def irng(self, f, depth=0):
        lo = hi = f.c
        for a, k in f.t:
            l, h = self.arng(a, depth)
            if k < 0:
                l, h = h, l
            lo = None if (lo is None or l is None) else lo + l * k
            hi = None if (hi is None or h is None) else hi + h * k
        return lo, hi

    def frng(self, f, depth=0):
        """range of a form: intervals + definitions of div atoms"""
        if not isinstance(f, F):
            return f, f
        lo, hi = self.irng(f, depth)
        if depth < 3:
            for a, c in f.t:
                at = ATOMS[a]
                if at.kind != "div":
                    continue
                g, k = at.d
                if c % k:
                    continue
                m = -c // k
                # f = m*(g - k*a) + rest ; g - k*a in [0,k-1]
                rest = add(f, add(g, fatom(a), -k), -m)
                if isinstance(rest, F) and len(rest.t) > len(f.t):
                    continue
                l2, h2 = self.frng(rest, depth + 1)
                e0, e1 = (0, m * (k - 1)) if m > 0 else (m * (k - 1), 0)
                if l2 is not None and (lo is None or l2 + e0 > lo):
                    lo = l2 + e0
                if h2 is not None and (hi is None or h2 + e1 < hi):
                    hi = h2 + e1
            # floor(g/k2) = floor((floor(g'/k1) + s)/q) when k2 = q*k1 and g = g' + s*k1
            dv = [(a, c) for a, c in f.t if ATOMS[a].kind == "div"]
            if len(dv) > 1:
                for a2, c2 in dv:
                    g2, k2 = ATOMS[a2].d
                    for a1, c1 in dv:
                        if a1 == a2:
                            continue
                        g1, k1 = ATOMS[a1].d
                        if k2 <= k1 or k2 % k1 or not isinstance(g1, F) or g1.t != g2.t:
                            continue
                        q = k2 // k1
                        if c2 % q or (g2.c - g1.c) % k1:
                            continue
                        sft = (g2.c - g1.c) // k1
                        m = -c2 // q
                        # f = m*(a1 + sft - q*a2) + rest
                        rest = add(f, F(sft, tuple(sorted(((a1, 1), (a2, -q))))), -m)
                        if isinstance(rest, F) and len(rest.t) >= len(f.t):
                            continue
                        l2, h2 = self.frng(rest, depth + 1)
                        e0, e1 = (0, m * (q - 1)) if m > 0 else (m * (q - 1), 0)
                        if l2 is not None and (lo is None or l2 + e0 > lo):
                            lo = l2 + e0
                        if h2 is not None and (hi is None or h2 + e1 < hi):
                            hi = h2 + e1
        return lo, hi

    def lower(self, f, depth=0):
        """best lower bound using linear facts"""
        if not isinstance(f, F):
            return f
        lo, _ = self.frng(f)
        if lo is not None and lo >= 0:
            return lo
        if depth < 2 and self.facts:
            fd = dict(f.t)
            for g in self.facts:
                best = None
                for a, k in g.t:
                    if a in fd and (fd[a] > 0) == (k > 0):
                        m = Fraction(fd[a], k)
                        if m != best:
                            best = m
                            n, d = m.numerator, m.denominator
                            r = add(scale(f, d), g, -n)
                            l2 = self.lower(r, depth + 1)
                            if l2 is not None:
                                l2 = -((-l2) // d)
                                if lo is None or l2 > lo:
                                    lo = l2
                                    if lo >= 0:
                                        return lo
        return lo

    def elim(self, f, n=4):
        """lower bound by eliminating floor divisions: a = (g - r)/k, 0 <= r < k"""
        if not isinstance(f, F):
            return f
        lo = self.lower(f)
        if n == 0 or (lo is not None and lo >= 0):
            return lo
        best = None
        for a, c in f.t:
            if ATOMS[a].kind == "div" and (best is None or a > best[0]):
                best = (a, c)
        if best is None:
            return lo
        a, c = best
        g, k = ATOMS[a].d
        rest = F(f.c, tuple(x for x in f.t if x[0] != a))
        h = self.norm(add(scale(g, c), scale(rest, k)))
        hl = self.elim(h, n - 1)
        if hl is not None:
            l2 = -((max(c, 0) * (k - 1) - hl) // k)
            if lo is None or l2 > lo:
                lo = l2
        return lo

    def bounds(self, f):
        f = self.norm(f)
        if not isinstance(f, F):
            return f, f
        lo = self.lower(f)
        h = self.lower(neg(f))
        return lo, (None if h is None else -h)

    # ---- decisions.  cond = (kind, form): 'ge' f>=0, 'lt' f<0, 'eq', 'ne'
    def decide(self, cond):
        k, f = cond
        f = self.norm(f)
        if not isinstance(f, F):
            return {"ge": f >= 0, "lt": f < 0, "eq": f == 0, "ne": f != 0}[k]
        if k == "lt":
            r = self.decide(("ge", f))
            return None if r is None else not r
        if k == "ne":
            r = self.decide(("eq", f))
            return None if r is None else not r
        lo, hi = self.frng(f)
        if k == "ge":
            if lo is not None and lo >= 0:
                return True
            if hi is not None and hi < 0:
                return False
            if self.facts:
                l = self.lower(f)
                if l is not None and l >= 0:
                    return True
                l = self.lower(sub(-1, f))
                if l is not None and l >= 0:
                    return False
            if any(ATOMS[a].kind == "div" for a, _ in f.t) and len(f.t) > 1:
                l = self.elim(f)
                if l is not None and l >= 0:
                    return True
                l = self.elim(sub(-1, f))
                if l is not None and l >= 0:
                    return False
            return None
        if lo is not None and lo > 0 or hi is not None and hi < 0:
            return False
        if lo == 0 and hi == 0:
            return True
        g = 0
        for _, c in f.t:
            g = gcd(g, abs(c))
        if f.c % g:
            return False
        if f in self.ne or scale(f, -1) in self.ne:
            return False
        if g > 1:
            f2 = F(f.c // g, tuple((a, c // g) for a, c in f.t))
            if f2 in self.ne or scale(f2, -1) in self.ne:
                return False
        if self.facts:
            l = self.lower(sub(f, 1))
            if l is not None and l >= 0:
                return False
            l = self.lower(sub(-1, f))
            if l is not None and l >= 0:
                return False
            l = self.lower(f)
            if l is not None and l >= 0:
                l = self.lower(neg(f))
                if l is not None and l >= 0:
                    return True
        return None

    # ---- refinement
    def assume(self, cond, depth=0):
        k, f = cond
        f = self.norm(f)
        d = self.decide((k, f))
        if d is True:
            return
        if d is False:
            raise Infeasible()
        if k == "lt":
            return self._ge(sub(-1, f), depth)
        if k == "ge":
            return self._ge(f, depth)
        if k == "eq":
            return self._eq(f, depth)
        return self._ne(f)

    def _set(self, a, lo, hi, depth):
        l0, h0 = self.arng(a)
        if lo is None or (l0 is not None and l0 > lo):
            lo = l0
        if hi is None or (h0 is not None and h0 < hi):
            hi = h0
        if lo is not None and hi is not None and lo > hi:
            raise Infeasible()
        if (lo, hi) == self.rng.get(a):
            return
        changed = (lo, hi) != (l0, h0)
        self.rng[a] = (lo, hi)
        if not changed:
            return
        at = ATOMS[a]
        if at.kind == "div" and depth < 6:
            g, kk = at.d
            g = self.norm(g)
            if isinstance(g, F) and not (len(g.t) == 1 and g.t[0][0] == a):
                if lo is not None:
                    self.assume(("ge", sub(g, kk * lo)), depth + 1)
                if hi is not None:
                    self.assume(("ge", sub(kk * hi + kk - 1, g)), depth + 1)
        if lo is not None and lo == hi and a not in self.sub:
            self._subst(a, lo)
        self._nec(a)
        if depth < 6:
            for g in self.facts:
                for b, _ in g.t:
                    if b == a:
                        self._prop(g, depth + 1)
                        break

    def _nec(self, a):
        """disequalities at the range boundary tighten it"""
        if not self.ne:
            return
        for f in self.ne:
            if len(f.t) == 1 and f.t[0][0] == a:
                c = f.t[0][1]
                if f.c % c:
                    continue
                v = -f.c // c
                lo, hi = self.arng(a)
                if lo == v:
                    self._set(a, v + 1, hi, 1)
                elif hi == v:
                    self._set(a, lo, v - 1, 1)

    def _prop(self, g, depth):
        g = self.norm(g)
        if not isinstance(g, F):
            if g < 0:
                raise Infeasible()
            return
        lo, hi = self.irng(g)
        if hi is not None and hi < 0:
            raise Infeasible()
        for a, c in g.t:
            rest = F(g.c, tuple(x for x in g.t if x[0] != a))
            _, rh = self.irng(rest)
            if rh is None:
                continue
            # c*a >= -rh
            if c > 0:
                self._set(a, -(rh // c), None, depth)
            else:
                self._set(a, None, rh // (-c), depth)
        return

    def _ge(self, f, depth):
        if len(f.t) == 1:
            a, c = f.t[0]
            if c > 0:
                self._set(a, -(f.c // c), None, depth)
            else:
                self._set(a, None, f.c // (-c), depth)
            return
        g = 0
        for _, c in f.t:
            g = gcd(g, abs(c))
        if g > 1:
            f = F(f.c // g, tuple((a, c // g) for a, c in f.t))
        if f not in self.facts:
            self.facts = self.facts + (f,)
            # f>=0 and -f>=0 -> equality
            if scale(f, -1) in self.facts:
                if depth < 6:
                    self._eq(f, depth + 1)
                    return
        self._prop(f, depth + 1)
        # f >= 0 and f != 0 -> f >= 1
        if self.ne and (f in self.ne or scale(f, -1) in self.ne) and depth < 3:
            f1 = sub(f, 1)
            if isinstance(f1, F) and f1 not in self.facts:
                self._ge(f1, depth + 1)

    def _eq(self, f, depth):
        g = 0
        for _, c in f.t:
            g = gcd(g, abs(c))
        if f.c % g:
            raise Infeasible()
        if g > 1:
            f = F(f.c // g, tuple((a, c // g) for a, c in f.t))
        if len(f.t) == 1:
            a, c = f.t[0]
            v = -f.c // c
            self._set(a, v, v, depth)
            if a not in self.sub:
                self._subst(a, v)
            return
        cand = None
        for a, c in f.t:
            if abs(c) != 1:
                continue
            # do not substitute an atom that another term's definition uses
            bad = any(a in ATOMS[b].deps for b, _ in f.t if b != a)
            rank = (bad, ATOMS[a].kind == "in", a)
            if ATOMS[a].kind != "in":
                rank = (bad, False, -a)
            else:
                rank = (bad, True, -a)
            if cand is None or rank < cand[0]:
                cand = (rank, a, c)
        if cand is not None and not cand[0][0]:
            _, a, c = cand
            rest = F(f.c, tuple(x for x in f.t if x[0] != a))
            e = scale(rest, -c)      # a = -rest/c, c=+-1
            lo, hi = self.arng(a)
            at = ATOMS[a]
            self._subst(a, e)
            e = self.norm(e)
            if lo is not None:
                self.assume(("ge", sub(e, lo)), depth + 1)
            if hi is not None:
                self.assume(("ge", sub(hi, e)), depth + 1)
            if at.kind == "div":
                gg, kk = at.d
                r = sub(gg, scale(e, kk))
                self.assume(("ge", r), depth + 1)
                self.assume(("ge", sub(kk - 1, r)), depth + 1)
            return
        for x in (f, scale(f, -1)):
            if x not in self.facts:
                self.facts = self.facts + (x,)
        for x in (f, scale(f, -1)):
            self._prop(x, depth + 1)

    def _subst(self, a, e):
        self._nc = {}
        s = {}
        for b, x in self.sub.items():
            if isinstance(x, F) and any(y == a for y, _ in x.t):
                r = x.c
                for y, k in x.t:
                    r = add(r, e if y == a else fatom(y), k)
                x = simp(r)
            s[b] = x
        s[a] = e
        self.sub = s
        if self.facts:
            nf = []
            for g in self.facts:
                h = self.norm(g)
                if isinstance(h, F):
                    if h not in nf:
                        nf.append(h)
                elif h < 0:
                    raise Infeasible()
            self.facts = tuple(nf)
        if self.ne:
            nn = set()
            for g in self.ne:
                h = self.norm(g)
                if isinstance(h, F):
                    nn.add(h)
                elif h == 0:
                    raise Infeasible()
            self.ne = frozenset(nn)

    def _ne(self, f):
        if len(f.t) == 1:
            a, c = f.t[0]
            if f.c % c:
                return
            v = -f.c // c
            lo, hi = self.arng(a)
            if lo == v:
                self._set(a, v + 1, None, 0)
                return
            if hi == v:
                self._set(a, None, v - 1, 0)
                return
        else:
            # known sign -> strict
            l = self.lower(f)
            if l == 0:
                self._ge(sub(f, 1), 0)
            else:
                l = self.lower(neg(f))
                if l == 0:
                    self._ge(sub(-1, f), 0)
        self.ne = self.ne | {f}

    def truth(self, cond):
        d = self.decide(cond)
        if d is None:
            raise NeedSplit(cond)
        return d

    # ---- floor division by a positive constant
    def div(self, f, k, rel=False):
        """floor(f / k); rel: the caller may be split to relate this quotient
        to one of the same dividend shape that already exists"""
        f = self.norm(f) if isinstance(f, F) else f
        if not isinstance(f, F):
            return f // k
        if k == 1:
            return f
        q = f.c // k
        r = f.c % k
        keep = []
        out = []
        for a, c in f.t:
            if c % k == 0:
                out.append((a, c // k))
            else:
                # reduce coefficient modulo k keeps it small
                keep.append((a, c))
        outF = simp(F(q, tuple(out)))
        if not keep:
            return outF
        # c = k*m + c'  : floor((c a)/k) = m a + floor(c' a / k)
        rest = F(r, tuple(keep))
        lo, hi = self.frng(rest)
        if lo is not None and hi is not None and lo // k == hi // k:
            return add(outF, lo // k)
        # flatten nested division floor(floor(x/j)/k)
        if len(keep) == 1 and keep[0][1] in (1, -1):
            at = ATOMS[keep[0][0]]
            if at.kind == "div":
                g, j = at.d
                if keep[0][1] == -1:        # -floor(g/j) = floor((j-1-g)/j)
                    g = sub(j - 1, g)
                return add(outF, self.div(add(g, r * j), j * k, rel))
        # common factor: floor(g*x/k) with g | k
        g = gcd(k, r)
        for _, c in keep:
            g = gcd(g, abs(c))
        if g > 1:
            return add(outF, self.div(F(r // g, tuple((a, c // g) for a, c in keep)), k // g, rel))
        # canonical sign: floor((r-x)/k) = -floor((x+k-1-r)/k)
        if keep[0][1] < 0:
            return sub(outF, self.div(F(k - 1 - r, tuple((a, -c) for a, c in keep)), k, rel))
        sib = DIVS.setdefault((rest.t, k), [])
        if rel and sib and sib[0][0] != r:
            r0, a0 = sib[0]
            d = r - r0
            # x+r0 = k*q+m, 0 <= m < k:  floor((x+r)/k) = q + floor((m+d)/k), -k < d < k
            m = sub(F(r0, rest.t), scale(fatom(a0), k))
            c = ("ge", add(m, d - k)) if d > 0 else ("ge", add(m, d))
            t = self.decide(c)
            if t is None:
                raise NeedSplit(c)
            return self.norm_(add(outF, add(fatom(a0), (1 if t else 0) if d > 0 else (0 if t else -1))))
        key = ("div", rest, k)
        a = MEMO.get(key)
        if a is None:
            a = new_atom("(%s/%d)" % (short(rest), k), None, None, "div", (rest, k))
            ATOMS[a].deps = deps_of(rest)
            MEMO[key] = a
            sib.append((r, a))
            lo, hi = Store().frng(rest)
            ATOMS[a].lo = None if lo is None else lo // k
            ATOMS[a].hi = None if hi is None else hi // k
        return add(outF, fatom(a))

    def norm_(self, f):
        return self.norm(f) if isinstance(f, F) else f

    def mod(self, f, k, rel=False):
        """f mod k in [0,k)"""
        return sub(f, scale(self.div(f, k, rel), k))

    def field(self, f, j, n):
        return self.mod(self.div(f, 1 << j), 1 << n)

    # ---- machine views
    def as_u(self, f, w):
        if not isinstance(f, F):
            return f & ((1 << w) - 1)
        f = self.norm(f)
        if not isinstance(f, F):
            return f & ((1 << w) - 1)
        M = 1 << w
        lo, hi = self.frng(f)
        if lo is not None and hi is not None:
            if lo >= 0 and hi < M:
                return f
            k0, k1 = lo // M, hi // M
            if k0 == k1:
                return sub(f, k0 * M)
            if k1 - k0 <= 1 and not (CIPHER and w == 32):
                c = ("ge", sub(f, k1 * M))
                if self.truth(c):
                    return sub(f, k1 * M)
                return sub(f, k0 * M)
        return self.mod(f, M)

    def as_s(self, f, w):
        H = 1 << (w - 1)
        if not isinstance(f, F):
            f &= (1 << w) - 1
            return f - (1 << w) if f >= H else f
        r = self.as_u(add(f, H), w)
        return sub(r, H)


UFRNG = {}
UFOLD = {}


def refold(st, at, op, args):
    fn = UFOLD.get(op)
    if fn is not None:
        return fn(st, *args)
    return uf(op, args, at.lo, at.hi, at.ev, name=at.name)


def uf(op, args, lo, hi, ev=None, name=None):
    key = ("uf", op, args)
    a = MEMO.get(key)
    if a is None:
        if ev is not None and all(not isinstance(x, F) for x in args):
            try:
                return ev(*args)
            except Exception:
                pass
        a = new_atom(name or "%s#%d" % (op, len(ATOMS)), lo, hi, "uf", (op, args), ev)
        s = set()
        for x in args:
            if isinstance(x, F):
                s |= deps_of(x)
        ATOMS[a].deps = frozenset(s)
        MEMO[key] = a
    return fatom(a)


def short(f):
    s = repr(f)
    return s if len(s) < 40 else s[:18] + ".." + s[-18:]
