"""Gated polynomial value analysis of LLVM IR.

A value is a polynomial over source atoms whose coefficients are decision
diagrams over comparison literals (gating functions).  Control flow joins merge
values with the guards of the incoming edges; loops with constant trip counts
are unrolled, `while(t >= N) t -= N` style loops are summarised as periodic
wraps.  Two values are equal iff their normal forms are.
"""
import math
from fractions import Fraction

from dd import DD
from cfront import Ty, PTR


class Unsupported(Exception):
    """the shape of the code is outside of what the analysis models"""


class Undef(object):
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Num(object):
    __slots__ = ('p', 'gated')

    def __init__(self, p):
        self.p = p


class Bool(object):
    __slots__ = ('g',)

    def __init__(self, g):
        self.g = g


class Ptr(object):
    """guarded alternatives of (object, byte offset)"""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts


class Alg(object):
    """polynomials with guarded rational coefficients; dict mono -> dd node"""

    def __init__(self):
        self.dd = DD()
        self.atoms = []          # id -> key
        self.aid = {}
        self.isint = []
        self.positive = set()    # atoms known >= 1
        self.splitter = None     # called with a real polynomial whose sign is not known
        self.bounds = {}         # atom -> (lo, hi) rational bounds or None
        self.rules = {}          # mono -> poly
        self.ruleatoms = set()
        self.frac = {}           # F atom -> phi atom
        self.lits = {}

    # ---- atoms
    def atom(self, key, isint=False, lo=None, hi=None):
        a = self.aid.get(key)
        if a is None:
            a = len(self.atoms)
            self.aid[key] = a
            self.atoms.append(key)
            self.isint.append(isint)
            self.bounds[a] = (lo, hi)
        return a

    def A(self, a):
        return {((a, 1),): self.dd.T}

    def C(self, c):
        if c == 0: return {}
        return {(): self.dd.term(c)}

    # ---- arithmetic
    def rw(self, p):
        if not self.ruleatoms: return p
        hit = None
        for m in p:
            for a, e in m:
                if a in self.ruleatoms:
                    hit = True
                    break
            if hit: break
        if not hit: return p
        out = {}
        for m, c in p.items():
            done = False
            for rm, rp in self.rules.items():
                d = dict(m)
                ok = True
                for a, e in rm:
                    if d.get(a, 0) < e:
                        ok = False
                        break
                if ok:
                    for a, e in rm:
                        d[a] -= e
                        if d[a] == 0: del d[a]
                    q = self.mul({tuple(sorted(d.items())): c}, rp)
                    for m2, c2 in q.items():
                        self.acc(out, m2, c2)
                    done = True
                    break
            if not done:
                self.acc(out, m, c)
        return out

    def acc(self, out, m, c):
        o = out.get(m)
        if o is not None:
            c = self.dd.apply('+', o, c)
        if c == self.dd.F:
            out.pop(m, None)
        else:
            out[m] = c

    def add(self, a, b):
        if not a: return b
        if not b: return a
        out = dict(a)
        for m, c in b.items():
            self.acc(out, m, c)
        return out

    def scale(self, a, k):
        if k == 1: return a
        if k == 0: return {}
        t = self.dd.term(k)
        return {m: self.dd.apply('*', c, t) for m, c in a.items()}

    def neg(self, a):
        return self.scale(a, -1)

    def sub(self, a, b):
        return self.add(a, self.neg(b))

    def mulmono(self, m1, m2):
        if not m1: return m2
        if not m2: return m1
        d = dict(m1)
        for a, e in m2:
            d[a] = d.get(a, 0) + e
            if d[a] == 0: del d[a]
        return tuple(sorted(d.items()))

    def mul(self, a, b):
        out = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                self.acc(out, self.mulmono(m1, m2), self.dd.apply('*', c1, c2))
        return self.rw(out)

    def inv(self, a):
        """1 / a for an ungated polynomial"""
        if len(a) == 1:
            (m, c), = a.items()
            if self.dd.isterm(c):
                return {tuple((x, -e) for x, e in m): self.dd.term(1 / self.dd.value(c))}
        k = self.atom(('inv', self.key(a)))
        return self.A(k)

    def guard(self, g, a):
        """a where g holds, 0 elsewhere"""
        out = {}
        for m, c in a.items():
            c = self.dd.apply('*', g, c)
            if c != self.dd.F: out[m] = c
        return out

    def ite(self, g, a, b):
        dd = self.dd
        if g == dd.T: return a
        if g == dd.F: return b
        out = {}
        for m in set(a) | set(b):
            c = dd.ITE(g, a.get(m, dd.F), b.get(m, dd.F))
            if c != dd.F: out[m] = c
        return out

    def restrict(self, a, g):
        dd = self.dd
        if g == dd.T: return a
        out = {}
        for m, c in a.items():
            if not dd.isterm(c): c = dd.restrict(c, g)
            if c != dd.F: out[m] = c
        return out

    def key(self, a):
        return tuple(sorted(a.items()))

    def isgated(self, a):
        return any(not self.dd.isterm(c) for c in a.values())

    def const(self, a):
        if not a: return Fraction(0)
        if len(a) == 1 and () in a and self.dd.isterm(a[()]):
            return self.dd.value(a[()])
        return None

    def intmono(self, m):
        return all(self.isint[x] and e > 0 for x, e in m)

    def isintpoly(self, a):
        for m, c in a.items():
            if not self.intmono(m): return False
            if self.dd.isterm(c):
                if self.dd.value(c).denominator != 1: return False
            else:
                for _, t in self.paths(c):
                    if t.denominator != 1: return False
        return True

    # ---- theory of the literals
    # ('phi', atom, c): atom >= c, with atom in [0, 1)
    # ('ge', key): integer polynomial >= 0 ; ('r', key): real polynomial >= 0
    def philit(self, a, c):
        if c <= 0: return self.dd.T
        if c >= 1: return self.dd.F
        return self.dd.lit(('phi', a, c))

    def paths(self, n):
        """consistent paths of a diagram"""
        dd = self.dd
        out = []

        def walk(n, asg, box):
            d = dd.nodes[n]
            if d[0] == 't':
                out.append((tuple(asg), d[1]))
                return
            k = dd.litname[d[0]]
            for b in (0, 1):
                if k[0] == 'phi':
                    lo, hi = box.get(k[1], (Fraction(0), Fraction(1)))
                    if b:
                        lo2, hi2 = max(lo, k[2]), hi
                    else:
                        lo2, hi2 = lo, min(hi, k[2])
                    if lo2 >= hi2: continue
                    box2 = dict(box)
                    box2[k[1]] = (lo2, hi2)
                    walk(d[1 + b], asg + [(d[0], b)], box2)
                else:
                    walk(d[1 + b], asg + [(d[0], b)], box)
        walk(n, [], {})
        return out

    def simp(self, n):
        """equivalent diagram without inconsistent paths (of the phi literals)"""
        dd = self.dd
        if dd.isterm(n): return n
        key = ('simp', n)
        r = dd.cache.get(key)
        if r is not None: return r
        sup = [dd.litname[v] for v in dd.support(n)]
        seen = set()
        multi = False
        for k in sup:
            if k[0] == 'phi':
                if k[1] in seen: multi = True
                seen.add(k[1])
        if not multi:
            dd.cache[key] = n
            return n
        memo = {}

        def walk(n, box):
            d = dd.nodes[n]
            if d[0] == 't': return n
            mk = (n, tuple(sorted(box.items())))
            if mk in memo: return memo[mk]
            k = dd.litname[d[0]]
            if k[0] == 'phi':
                lo, hi = box.get(k[1], (Fraction(0), Fraction(1)))
                if k[2] <= lo:
                    r = walk(d[2], box)
                elif k[2] >= hi:
                    r = walk(d[1], box)
                else:
                    b1 = dict(box)
                    b1[k[1]] = (k[2], hi)
                    b0 = dict(box)
                    b0[k[1]] = (lo, k[2])
                    r = dd.mk(d[0], walk(d[1], b0), walk(d[2], b1))
            else:
                r = dd.mk(d[0], walk(d[1], box), walk(d[2], box))
            memo[mk] = r
            return r
        r = walk(n, {})
        dd.cache[key] = r
        return r

    def psimp(self, a):
        out = {}
        for m, c in a.items():
            c = self.simp(c)
            if c != self.dd.F: out[m] = c
        return out

    def zero(self, a):
        """is the polynomial zero (on all consistent paths)?"""
        for m, c in a.items():
            if self.simp(c) == self.dd.F: continue
            for _, t in self.paths(c):
                if t != 0: return False
        return True

    def split(self, a, g=None):
        """[(guard, ungated polynomial)] of the consistent cases of a (under g)"""
        dd = self.dd
        if not self.isgated(a):
            return [(dd.T, a)]
        out = {}

        def walk(cond, items, rest):
            # find a gated coefficient
            i = 0
            while i < len(rest) and dd.isterm(rest[i][1]): i += 1
            if i == len(rest):
                p = {m: c for m, c in rest if c != dd.F}
                k = self.key(p)
                if k in out:
                    out[k] = (dd.OR(out[k][0], cond), p)
                else:
                    out[k] = (cond, p)
                return
            v = min(dd.nodes[c][0] for m, c in rest if not dd.isterm(c))
            for b in (0, 1):
                lit = dd.mk(v, dd.F, dd.T) if b else dd.mk(v, dd.T, dd.F)
                c2 = self.simp(dd.AND(cond, lit))
                if c2 == dd.F: continue
                walk(c2, items, [(m, self.simp(dd.restrict(dd.cof(c, v, b), c2)) if not dd.isterm(c) else c) for m, c in rest])
        walk(dd.T if g is None else g, [], list(a.items()))
        return list(out.values())

    # ---- literals
    def rng(self, a, box=None):
        """rational interval of an ungated polynomial in bounded atoms, or None bounds"""
        lo = hi = Fraction(0)
        for m, c in a.items():
            c = self.dd.value(c)
            l = h = Fraction(1)
            for x, e in m:
                bl, bh = (box or {}).get(x, self.bounds.get(x, (None, None)))
                if bl is None and x in self.positive: bl = Fraction(1) if self.isint[x] else Fraction(0)
                if bl is None or bh is None or e < 0:
                    if e == 1 and l == h == 1 and len(m) == 1:
                        l, h = bl, bh
                        break
                    return None, None
                c4 = [bl ** e, bh ** e] + ([Fraction(0)] if e % 2 == 0 and bl < 0 < bh else [])
                x4 = [u * v for u in (l, h) for v in c4]
                l, h = min(x4), max(x4)
            if c < 0: l, h = h, l
            lo = None if lo is None or l is None else lo + c * l
            hi = None if hi is None or h is None else hi + c * h
        return lo, hi

    def ge0i(self, a):
        """guard of integer polynomial a >= 0"""
        dd = self.dd
        a = self.rw(a)
        if self.isgated(a):
            r = dd.F
            for g, p in self.split(a):
                r = dd.OR(r, dd.AND(g, self.ge0i(p)))
            return r
        c = self.const(a)
        if c is not None: return dd.T if c >= 0 else dd.F
        # primitive form
        den = 1
        num = 0
        for m, x in a.items():
            den = den * dd.value(x).denominator // math.gcd(den, dd.value(x).denominator)
        for m, x in a.items():
            if m != (): num = math.gcd(num, int(dd.value(x) * den))
        b = {}
        for m, x in a.items():
            v = dd.value(x) * den / num
            if m == (): v = Fraction(math.floor(v))
            b[m] = v
        lead = sorted(m for m in b if m != ())[0]
        negate = b[lead] < 0
        if negate:
            b = {m: -v for m, v in b.items()}
            b[()] = b.get((), Fraction(0)) - 1
        if b.get((), 1) == 0: del b[()]
        t = self._decide_int(b)
        if t is not None:
            r = dd.T if t else dd.F
        else:
            r = None
            ms = [m for m in b if m != ()]
            if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1 and b[ms[0]] == 1:
                k = self.atoms[ms[0][0][0]]
                if k[0] in ('trunc', 'floor'):
                    n = -b.get((), Fraction(0))
                    q = dict(k[1])
                    if k[0] == 'floor' or n >= 1: r = self.ge0r(self.sub(q, self.C(n)))
                    else: r = self.ge0r(self.sub(q, self.C(n - 1)))
            if r is None:
                r = dd.lit(('ge', tuple(sorted(b.items()))))
        return dd.NOT(r) if negate else r

    def _decide_int(self, b):
        """b (mono -> Fraction) >= 0 ?  True / False / None"""
        c = b.get((), Fraction(0))
        ms = [m for m in b if m != ()]
        p = {m: self.dd.term(v) for m, v in b.items()}
        lo, hi = self.rng(p)
        if lo is not None and lo >= 0: return True
        if hi is not None and hi < 0: return False
        if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1:
            a = ms[0][0][0]
            if a in self.positive:
                if b[ms[0]] > 0 and b[ms[0]] + c >= 0: return True
                if b[ms[0]] < 0 and b[ms[0]] + c < 0: return False
        # wrap(t, N) against N
        if len(ms) == 2 and all(len(m) == 1 and m[0][1] == 1 for m in ms):
            x, y = ms[0][0][0], ms[1][0][0]
            for w, n in ((x, y), (y, x)):
                kw = self.atoms[w]
                if isinstance(kw, tuple) and kw[0] in ('wrap', 'whi') and kw[2] == self.key(self.A(n)):
                    cw, cn = b[((w, 1),)], b[((n, 1),)]
                    if cw == -1 and cn == 1 and c >= -1: return True     # n - w + c >= 0
                    if cw == 1 and cn == -1 and c <= 0: return False     # w - n + c <= -1
        return None

    def descale(self, a):
        """an ungated polynomial divided by the positive factors common to its terms"""
        com = None
        for m in a:
            d = dict(m)
            if com is None: com = d
            else: com = {x: min(com.get(x, 0), d.get(x, 0)) for x in set(com) | set(d)}
        q = ()
        for x, e in sorted(com.items()):
            if e and self.ispositive(x): q += ((x, -e),)
        if not q: return a
        return self.mul(a, {q: self.dd.T})

    def ispositive(self, x):
        if x in self.positive: return True
        lo = self.bounds.get(x, (None, None))[0]
        return lo is not None and lo > 0

    def eq0r(self, a):
        """guard of real polynomial a == 0"""
        dd = self.dd
        a = self.rw(a)
        if self.isgated(a):
            r = dd.F
            for g, p in self.split(a): r = dd.OR(r, dd.AND(g, self.eq0r(p)))
            return r
        c = self.const(a)
        if c is not None: return dd.T if c == 0 else dd.F
        a = self.descale(a)
        den = 1
        for c in a.values(): den = den * dd.value(c).denominator // math.gcd(den, dd.value(c).denominator)
        b = self.mul(a, self.C(den))
        if self.isintpoly(b): return dd.AND(self.ge0i(b), self.ge0i(self.neg(b)))
        lo, hi = self.rng(a)
        if lo is not None and lo > 0 or hi is not None and hi < 0: return dd.F
        if (lo == 0 or hi == 0) and all(x in self.positive for m in a for x, e in m) and len({dd.value(c) > 0 for c in a.values()}) == 1: return dd.F
        if self.splitter: return dd.T if self.splitter(a) == 0 else dd.F
        k = dd.value(a[sorted(m for m in a if m != ())[0]])
        return dd.lit(('er', tuple(sorted((m, dd.value(v) / k) for m, v in a.items()))))

    def ge0r(self, a, strict=False):
        dd = self.dd
        a = self.rw(a)
        if self.isgated(a):
            r = dd.F
            for g, p in self.split(a):
                r = dd.OR(r, dd.AND(g, self.ge0r(p, strict)))
            return r
        c = self.const(a)
        if c is not None: return dd.T if (c > 0 if strict else c >= 0) else dd.F
        if self.isintpoly(a):
            return self.ge0i(self.sub(a, self.C(1)) if strict else a)
        b = self.descale(a)
        if b is not a: return self.ge0r(b, strict)
        lo, hi = self.rng(a)
        if lo is not None and lo >= 0: return dd.T
        if hi is not None and hi <= 0: return dd.F
        ms = [m for m in a if m != ()]
        if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1:
            x = ms[0][0][0]
            if self.atoms[x][0] == 'phi':
                k = dd.value(a[ms[0]])
                c = dd.value(a[()]) if () in a else Fraction(0)
                t = -c / k
                return self.philit(x, t) if k > 0 else dd.NOT(self.philit(x, t))
        if self.splitter:
            v = self.splitter(a)
            return dd.T if v > 0 or v == 0 and not strict else dd.F
        lead = sorted(ms)[0]
        k = dd.value(a[lead])
        b = tuple(sorted((m, dd.value(v) / abs(k)) for m, v in a.items()))
        if k < 0:
            b = tuple((m, -v) for m, v in b)
            return dd.NOT(dd.lit(('r', b)))
        return dd.lit(('r', b))

    def fabs(self, a):
        g = self.ge0r(a)
        return self.ite(g, a, self.neg(a))

    # ---- integers
    def distribute(self, a, fn):
        dd = self.dd
        if not self.isgated(a): return fn(a)
        out = {}
        for g, p in self.split(a):
            out = self.add(out, self.guard(g, fn(p)))
        return out

    MAXSTEPS = 8

    def floor(self, a):
        a = self.rw(a)
        if self.isgated(a): return self.distribute(a, self.floor)
        dd = self.dd
        I, r = {}, {}
        for m, c in a.items():
            if m == ():
                continue
            v = dd.value(c)
            if self.intmono(m) and v.denominator == 1:
                I[m] = c
            else:
                r[m] = c
        c0 = dd.value(a[()]) if () in a else Fraction(0)
        if not r:
            return self.add(I, self.C(math.floor(c0)))
        # floor(t / n) of integers
        if c0 == 0 and not I:
            q = self._intdiv(r)
            if q is not None: return q
        pos = [m for m in r if any(self.atoms[x][0] == 'pos' for x, e in m)]
        if len(pos) == 1 and pos[0] not in self.rules and self.isint is not None:
            k = dd.value(r[pos[0]])
            gk = self.key(r)
            F = self.atom(('F', gk), isint=True)
            f = self.atom(('phi', gk), lo=Fraction(0), hi=Fraction(1))
            self.frac[F] = f
            rest = {m: c for m, c in r.items() if m != pos[0]}
            rule = self.scale(self.sub(self.add(self.A(F), self.A(f)), rest), 1 / k)
            self.rules[pos[0]] = rule
            for x, e in pos[0]:
                if self.atoms[x][0] == 'pos': self.ruleatoms.add(x)
            return self.floor(a)
        if len(r) == 1:
            (m, c), = r.items()
            if len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]][0] == 'phi':
                k = dd.value(c)
                lo, hi = sorted([c0, c0 + k])
                n0, n1 = math.floor(lo), math.ceil(hi) - 1
                if n1 - n0 <= self.MAXSTEPS:
                    out = self.C(n0)
                    for j in range(n0 + 1, n1 + 1):
                        t = (j - c0) / k
                        g = self.philit(m[0][0], t) if k > 0 else dd.NOT(self.philit(m[0][0], t))
                        out = self.add(out, self.guard(g, self.C(1)))
                    return self.add(I, out)
        t = self._ratio(a)
        if t is not None: return t
        q = dict(r)
        n0 = math.floor(c0)
        if n0: I = self.add(I, self.C(n0))
        if c0 != n0: q[()] = dd.term(c0 - n0)
        lo, hi = self.rng(q)
        if lo is not None and hi is not None and math.floor(lo) == math.floor(hi): return self.add(I, self.C(math.floor(lo)))
        x = self.atom(('floor', self.key(q)), isint=True,
                      lo=None if lo is None else Fraction(math.floor(lo)), hi=None if hi is None else Fraction(math.floor(hi)))
        return self.add(I, self.A(x))

    def _ratio(self, a):
        """floor(t / d) for a positive sum d, where the signs of t - q d and t - (q + 1) d are known for an integer q"""
        dd = self.dd
        inv = [x for m in a for x, e in m if self.atoms[x][0] == 'inv']
        if inv and all(x == inv[0] for x in inv):
            x = inv[0]
            d = dict(self.atoms[x][1])
            n = {}
            for m, c in a.items():
                k = dict(m)
                e = k.pop(x, 0)
                if e not in (0, 1): return None
                t = {tuple(sorted(k.items())): c}
                n = self.add(n, t if e else self.mul(t, d))
        elif not inv:
            # one positive factor in the denominator
            neg = [y for m in a for y, e in m if e < 0]
            if not neg or any(y != neg[0] for y in neg) or not self.ispositive(neg[0]): return None
            d = self.A(neg[0])
            n = self.mul(a, d)
        else: return None
        if self.isgated(d) or self.isgated(n) or not d or any(self.atoms[y][0] == 'inv' for m in n for y, e in m): return None
        if self.ge0r(d, True) != dd.T: return None
        q = {}
        for lead in sorted(d):
            if not lead: continue
            k0 = dd.value(d[lead])
            t, rest = {}, n
            for m, c in sorted(n.items()):
                k = dict(m)
                for y, e in lead: k[y] = k.get(y, 0) - e
                k = tuple(sorted((y, e) for y, e in k.items() if e))
                v = dd.value(c) / k0
                if not k or any(e < 0 for y, e in k) or not self.intmono(k) or v.denominator != 1: continue
                t = self.add(t, self.scale({k: dd.T}, v))
            if t:
                r = self.sub(n, self.mul(t, d))
                if len(r) < len(n): q, n = self.add(q, t), r
        try:
            ev = lambda p: sum(dd.value(c) * self._sample(m) for m, c in p.items())
            f = math.floor(ev(n) / ev(d))
        except (ValueError, ZeroDivisionError, TypeError): return None
        for g in (f, f - 1, f + 1):
            if self.ge0r(self.sub(n, self.scale(d, Fraction(g)))) != dd.T: continue
            if self.ge0r(self.sub(self.scale(d, Fraction(g + 1)), n), True) != dd.T: continue
            return self.add(q, self.C(g))
        return None

    def _sample(self, m):
        v = Fraction(1)
        for y, e in m:
            lo, hi = self.bounds[y]
            if lo is None and y in self.positive: lo = Fraction(0)
            if lo is not None and hi is not None: t = (lo + hi) / 2
            elif lo is not None: t = lo + 1
            elif hi is not None: t = hi - 1
            else: t = Fraction(1)
            v *= t ** e
        return v

    def _intdiv(self, r):
        """floor(t / n) for an integer t and a positive integer atom n = (t - wrap) / n"""
        n = None
        for m in r:
            d = dict(m)
            neg = [x for x, e in d.items() if e < 0]
            if len(neg) != 1 or d[neg[0]] != -1: return None
            if n is None: n = neg[0]
            if neg[0] != n: return None
        if not self.isint[n] or n not in self.positive: return None
        t = {}
        for m, c in r.items():
            t[self.mulmono(m, ((n, 1),))] = c
        if not self.isintpoly(t): return None
        w = self.wrap(t, self.A(n))
        return self.mul(self.sub(t, w), {((n, -1),): self.dd.T})

    def trunc(self, a):
        a = self.rw(a)
        if self.isgated(a): return self.distribute(a, self.trunc)
        if self.isintpoly(a): return a
        c = self.const(a)
        if c is not None: return self.C(int(c))
        lo, hi = self.rng(a)
        if lo is not None and hi is not None and hi - lo <= self.MAXSTEPS:
            g = self.ge0r(a)
            return self.ite(g, self.floor(a), self.neg(self.floor(self.neg(a))))
        if lo is not None and lo >= 0: return self.floor(a)
        if hi is not None and hi <= 0: return self.neg(self.floor(self.neg(a)))
        x = self.atom(('trunc', self.key(a)), isint=True,
                      lo=None if lo is None else Fraction(int(lo)), hi=None if hi is None else Fraction(int(hi)))
        return self.A(x)

    def wrap(self, t, n):
        """t mod n in [0, n)"""
        t = self.rw(t)
        if self.isgated(t): return self.distribute(t, lambda q: self.wrap(q, n))
        cn = self.const(n)
        ct = self.const(t)
        if cn is not None and ct is not None: return self.C(ct % cn)
        nk = self.key(n)
        if len(n) == 1:
            nm = list(n)[0]
            t2 = {}
            for m, c in t.items():
                d = dict(m)
                if nm and nm[0][0] in d and self.dd.value(c).denominator == 1 and self.dd.value(n[nm]) == 1 and len(nm) == 1:
                    continue       # multiple of n
                if len(m) == 1 and m[0][1] == 1:
                    k = self.atoms[m[0][0]]
                    if k[0] in ('wrap', 'wlo', 'whi') and k[2] == nk and self.dd.value(c).denominator == 1:
                        for m2, c2 in self.scale(dict(k[1]), self.dd.value(c)).items():
                            self.acc(t2, m2, c2)
                        continue
                self.acc(t2, m, c)
            t = t2
        if self.const(t) == 0: return {}
        x = self.atom(('wrap', self.key(t), nk), isint=True, lo=Fraction(0))
        return self.A(x)

    def halfwrap(self, t, n, which):
        t = self.rw(t)
        if self.isgated(t): return self.distribute(t, lambda q: self.halfwrap(q, n, which))
        # decided?
        need = self.ge0i(self.neg(self.add(t, self.C(1)))) if which == 'wlo' else self.ge0i(self.sub(t, n))
        if need == self.dd.F: return t
        other = 'whi' if which == 'wlo' else 'wlo'
        if len(t) == 1:
            (m, c), = t.items()
            if c == self.dd.T and len(m) == 1 and m[0][1] == 1:
                k = self.atoms[m[0][0]]
                if k[0] == other and k[2] == self.key(n):
                    return self.wrap(dict(k[1]), n)
        x = self.atom((which, self.key(t), self.key(n)), isint=True, lo=Fraction(0) if which == 'wlo' else None)
        return self.A(x)

    def srem(self, t, n):
        t = self.rw(t)
        if self.isgated(t): return self.distribute(t, lambda q: self.srem(q, n))
        cn, ct = self.const(n), self.const(t)
        if cn is not None and ct is not None:
            return self.C(math.fmod(ct, cn))
        w = self.wrap(t, n)
        neg = self.dd.NOT(self.ge0i(t))
        if neg == self.dd.F: return w
        l = self.dd.lit(('sneg', self.key(t), self.key(n)))
        return self.sub(w, self.guard(l, n))

    # ---- printing
    def amono(self, m):
        return '*'.join(self.aname(x) + ('^%d' % e if e != 1 else '') for x, e in m) or '1'

    def aname(self, x):
        k = self.atoms[x]
        if isinstance(k, str): return k
        if k[0] == 'phi': return 'frac{%s}' % self.show(dict(k[1]))
        if k[0] == 'F': return 'floor{%s}' % self.show(dict(k[1]))
        if k[0] in ('wrap', 'wlo', 'whi'): return '%s(%s, %s)' % (k[0], self.show(dict(k[1])), self.show(dict(k[2])))
        if k[0] in ('floor', 'trunc', 'inv'): return '%s(%s)' % (k[0], self.show(dict(k[1])))
        if k[0] in ('pos', 'fld'): return str(k[1]) + ('[%s]' % k[2] if len(k) > 2 else '')
        return str(k)

    def show(self, a, n=6):
        s = []
        for m, c in sorted(a.items()):
            cs = str(self.dd.value(c)) if self.dd.isterm(c) else '<gated>'
            s.append((cs + '*' if cs != '1' or not m else '') + self.amono(m) if m else cs)
        if len(s) > n: s = s[:n] + ['...']
        return ' + '.join(s) or '0'

    def showlit(self, k):
        if k[0] == 'phi': return '%s >= %s' % (self.aname(k[1]), k[2])
        if k[0] == 'er': return '%s == 0' % self.show({m: self.dd.term(v) for m, v in k[1]})
        if k[0] in ('ge', 'r'): return '%s >= 0' % self.show({m: self.dd.term(v) for m, v in k[1]})
        return str(k[0])

    def showpath(self, p):
        return ' and '.join(('' if b else 'not ') + '(' + self.showlit(self.dd.litname[v]) + ')' for v, b in p) or 'always'


class Eval(object):
    """value of normal forms at one assignment of the source atoms"""

    def __init__(self, alg, base, default=None):
        self.alg = alg
        self.base = base          # key -> Fraction
        self.memo = {}
        self.default = default

    def atom(self, a):
        if a in self.memo: return self.memo[a]
        k = self.alg.atoms[a]
        r = self._atom(k)
        self.memo[a] = r
        return r

    def _atom(self, k):
        if k in self.base: return self.base[k]
        t = k[0]
        P = lambda key: self.poly(dict(key))
        if t == 'F': return Fraction(math.floor(P(k[1])))
        if t == 'phi':
            v = P(k[1])
            return v - math.floor(v)
        if t == 'wrap':
            return P(k[1]) % P(k[2])
        if t == 'wlo':
            v, n = P(k[1]), P(k[2])
            return v if v >= 0 else v % n
        if t == 'whi':
            v, n = P(k[1]), P(k[2])
            return v if v < n else v % n
        if t == 'floor': return Fraction(math.floor(P(k[1])))
        if t == 'trunc': return Fraction(int(P(k[1])))
        if t == 'inv': return 1 / P(k[1])
        if t == 'fn':
            f = getattr(math, k[1])
            return Fraction(f(*[float(P(x)) for x in k[2:]]))
        if self.default is not None:
            r = self.default(self, k)
            if r is not None: return r
        raise Unsupported('no value for %r' % (k,))

    def lit(self, k):
        if k[0] == 'phi': return self.atom(k[1]) >= k[2]
        if k[0] in ('ge', 'r'):
            return sum((self.mono(m) * v for m, v in k[1]), Fraction(0)) >= 0
        if k[0] == 'er': return sum((self.mono(m) * v for m, v in k[1]), Fraction(0)) == 0
        if k[0] == 'sneg':
            t, n = self.poly(dict(k[1])), self.poly(dict(k[2]))
            return t < 0 and t % n != 0
        if k in self.base: return bool(self.base[k])
        raise Unsupported('no truth value for %r' % (k,))

    def mono(self, m):
        v = Fraction(1)
        for a, e in m: v *= self.atom(a) ** e
        return v

    def node(self, n):
        dd = self.alg.dd
        d = dd.nodes[n]
        while d[0] != 't':
            d = dd.nodes[d[2] if self.lit(dd.litname[d[0]]) else d[1]]
        return d[1]

    def poly(self, p):
        s = Fraction(0)
        for m, c in p.items():
            v = self.node(c)
            if v != 0: s += v * self.mono(m)
        return s
