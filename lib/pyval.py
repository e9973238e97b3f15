"""Abstract values of the Python analysis.

Scalars are gated polynomials (cval.Alg); arrays are numpy object arrays whose
elements are abstract scalars, so that shapes, views, broadcasting and aliasing
follow numpy while the contents stay abstract.  An axis of unbounded length (the
particles) is represented by one generic element.
"""
import math
import random
import zlib
from fractions import Fraction

import numpy as np

import lin
from cval import Alg, Eval, Unsupported

ALG = None


def reset():
    global ALG
    ALG = Alg()
    lin.CACHE.clear()
    ALG.hidep = {}        # upper bounds of variables in terms of others, for the choice of witnesses
    ALG.draw = {}
    ALG.atom(('I',))
    ia = ALG.aid[('I',)]
    ALG.rules[((ia, 2),)] = ALG.C(-1)
    ALG.ruleatoms.add(ia)
    return ALG


class Unknown(object):
    """a value the analysis has no model for"""
    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return 'Unknown(%s)' % self.why


class Undefined(object):
    def __repr__(self):
        return 'undefined'


UNDEFINED = Undefined()


def pyfunc(f, nin, nout=1):
    """elementwise function of object arrays"""
    uf = np.frompyfunc(f, nin, nout)

    def g(*args):
        xs = []
        for a in args:
            if not isinstance(a, np.ndarray):
                b = np.empty((), dtype=object)
                b[()] = a
                a = b
            xs.append(a)
        if all(x.ndim == 0 for x in xs): return f(*[x[()] for x in xs])
        return uf(*xs)
    return g


def num(x):
    """polynomial of an abstract or concrete number"""
    if isinstance(x, S): return x.p
    if isinstance(x, B): return {(): x.g} if x.g != ALG.dd.F else {}
    if isinstance(x, (bool, np.bool_)): return ALG.C(int(x))
    if isinstance(x, (int, np.integer)): return ALG.C(int(x))
    if isinstance(x, Fraction): return ALG.C(x)
    if isinstance(x, (float, np.floating)):
        if math.isinf(x) or math.isnan(x): return ALG.A(ALG.atom(('const', repr(float(x)))))
        return ALG.C(Fraction(float(x)))
    if isinstance(x, (complex, np.complexfloating)):
        x = complex(x)
        return ALG.add(ALG.C(Fraction(x.real)), ALG.scale(ALG.A(ALG.aid[('I',)]), Fraction(x.imag)))
    raise Unsupported('not a number: %r' % (x,))


def isnum(x):
    return isinstance(x, (S, B, bool, int, float, complex, Fraction, np.integer, np.floating, np.bool_, np.complexfloating))


def mk(p):
    """S or a concrete number"""
    c = ALG.const(p)
    if c is not None:
        if c.denominator == 1: return int(c)
        return c
    return S(p)


class S(object):
    """abstract number"""
    __slots__ = ('p',)
    __array_ufunc__ = None

    def __init__(self, p):
        self.p = p

    def __repr__(self):
        return 'S(%s)' % ALG.show(self.p)

    __hash__ = None

    def __bool__(self):
        raise Unsupported('truth of an abstract number')

    def _bin(op):
        return lambda a, b: binop(op, a, b)

    def _rbin(op):
        return lambda a, b: binop(op, b, a)
    __add__ = _bin('+')
    __radd__ = _rbin('+')
    __sub__ = _bin('-')
    __rsub__ = _rbin('-')
    __mul__ = _bin('*')
    __rmul__ = _rbin('*')
    __truediv__ = _bin('/')
    __rtruediv__ = _rbin('/')
    __floordiv__ = _bin('//')
    __rfloordiv__ = _rbin('//')
    __mod__ = _bin('%')
    __rmod__ = _rbin('%')
    __pow__ = _bin('**')
    __rpow__ = _rbin('**')

    def __neg__(self):
        return mk(ALG.neg(self.p))

    def __abs__(self):
        return mk(ALG.fabs(self.p))

    def conjugate(self):
        return conj(self)


class B(object):
    """abstract truth value"""
    __slots__ = ('g',)
    __array_ufunc__ = None
    __hash__ = None

    def __init__(self, g):
        self.g = g

    def __repr__(self):
        return 'B(%d)' % self.g

    def __bool__(self):
        raise Unsupported('truth of an abstract condition')


def mkb(g):
    if g == ALG.dd.T: return True
    if g == ALG.dd.F: return False
    return B(g)


def truth(x):
    """dd guard of a scalar"""
    if isinstance(x, B): return x.g
    if isinstance(x, S):
        return ALG.dd.NOT(eqg(x.p, {}))
    if isnum(x): return ALG.dd.T if x else ALG.dd.F
    raise Unsupported('truth of %r' % (x,))


def eqg(p, q):
    d = ALG.sub(p, q)
    c = ALG.const(d)
    if c is not None: return ALG.dd.T if c == 0 else ALG.dd.F
    if ALG.isintpoly(d):
        return ALG.dd.AND(ALG.ge0i(d), ALG.ge0i(ALG.neg(d)))
    return ALG.eq0r(d)


def hascomplex(p):
    ia = ALG.aid[('I',)]
    return any(a == ia for m in p for a, e in m)


def parts(x):
    """(real, imag) polynomials; atoms of opaque complex values are split"""
    p = num(x)
    ia = ALG.aid[('I',)]
    re, im = {}, {}
    for m, c in p.items():
        d = dict(m)
        if d.get(ia, 0) == 1:
            d.pop(ia)
            im[tuple(sorted(d.items()))] = c
        else:
            re[m] = c
    return re, im


def conj(x):
    if isinstance(x, Unknown): return x
    re, im = parts(x)
    return mk(ALG.sub(re, ALG.mul(im, ALG.A(ALG.aid[('I',)]))))


def u(name, *args, isint=False, lo=None, hi=None):
    """uninterpreted function of abstract arguments"""
    return S(ALG.A(ALG.atom(('u', name) + tuple(akey(a) for a in args), isint=isint, lo=lo, hi=hi)))


def var(name, local=False, isint=False, positive=False, lo=None, hi=None):
    """a source atom; local: its value may differ between ranks"""
    k = ('v', name, 'L' if local else 'U')
    if positive and lo is None: lo = Fraction(1) if isint else None
    a = ALG.atom(k, isint=isint, lo=lo, hi=hi)
    if positive: ALG.positive.add(a)
    return S(ALG.A(a))


def akey(a):
    if isnum(a): return ('p', ALG.key(num(a)))
    if isinstance(a, tuple): return ('t',) + tuple(akey(x) for x in a)
    if isinstance(a, list): return ('l',) + tuple(akey(x) for x in a)
    if a is None or isinstance(a, str): return ('c', a)
    if isinstance(a, Unknown): raise Unsupported(a.why)
    k = getattr(a, 'akey', None)
    if k is not None: return k()
    if isinstance(a, np.ndarray): return ('l',) + tuple(akey(x) for x in a.ravel()) + (a.shape,)
    if isinstance(a, np.dtype): return ('c', 'dtype ' + str(a))
    return ('o', id(a), type(a).__name__)


def realpow(a, b):
    c = ALG.const(num(b))
    if c is not None and c.denominator == 1:
        n = int(c)
        pa = num(a)
        if abs(n) <= 8:
            if n >= 0:
                r = ALG.C(1)
                for _ in range(n): r = ALG.mul(r, pa)
                return mk(r)
            i = inv(pa)
            r = ALG.C(1)
            for _ in range(-n): r = ALG.mul(r, i)
            return mk(r)
    ca = ALG.const(num(a))
    if ca is not None and c is not None:
        return Fraction(float(ca) ** float(c))
    if c == Fraction(1, 2): return fn('sqrt', a)
    return u('pow', a, b)


def inv(p):
    if ALG.isgated(p): return ALG.distribute(p, inv)
    if not p: return ALG.A(ALG.atom(('const', '1/0')))
    return ALG.inv(p)


def fn(name, a):
    """a function of math"""
    p = num(a)
    c = ALG.const(p)
    if c is not None:
        try:
            v = getattr(math, name)(float(c))
            return mk(ALG.C(Fraction(v)))
        except Exception:
            return u(name, a)
    return S(ALG.distribute(p, lambda q: ALG.A(ALG.atom(('fn', name, ALG.key(q))))))


def binop(op, a, b):
    if isinstance(a, Unknown): return a
    if isinstance(b, Unknown): return b
    if not isnum(a) or not isnum(b):
        return NotImplemented
    if isinstance(a, (B, bool, np.bool_)) and isinstance(b, (B, bool, np.bool_)):
        dd = ALG.dd
        if op == '&': return mkb(dd.AND(truth(a), truth(b)))
        if op == '|': return mkb(dd.OR(truth(a), truth(b)))
        if op == '^': return mkb(dd.ITE(truth(a), dd.NOT(truth(b)), truth(b)))
        if op == '+': pass
    pa, pb = num(a), num(b)
    ca, cb = ALG.const(pa), ALG.const(pb)
    if op == '+': return mk(ALG.add(pa, pb))
    if op == '-': return mk(ALG.sub(pa, pb))
    if op == '*': return mk(ALG.mul(pa, pb))
    if op == '/':
        return mk(ALG.mul(pa, inv(pb)))
    if op == '//':
        if cb == 0: return u('div0', a)
        return mk(ALG.floor(ALG.mul(pa, inv(pb))))
    if op == '%':
        if cb == 0: return u('mod0', a)
        if ALG.isintpoly(pa) and ALG.isintpoly(pb):
            if cb is None or cb > 0:
                return mk(ALG.distribute(pa, lambda q: ALG.wrap(q, pb)))
        return mk(ALG.sub(pa, ALG.mul(pb, ALG.floor(ALG.mul(pa, inv(pb))))))
    if op == '**': return realpow(a, b)
    if op in ('<<', '>>', '&', '|', '^'):
        if ca is not None and cb is not None and ca.denominator == cb.denominator == 1:
            x, y = int(ca), int(cb)
            return {'<<': lambda: x << y, '>>': lambda: x >> y, '&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y}[op]()
        return u(op, a, b)
    return cmp(op, a, b)


def cmp(op, a, b):
    if isinstance(a, Unknown): return a
    if isinstance(b, Unknown): return b
    if not isnum(a) or not isnum(b): return NotImplemented
    pa, pb = num(a), num(b)
    dd = ALG.dd
    if op == '==': return mkb(eqg2(pa, pb))
    if op == '!=': return mkb(dd.NOT(eqg2(pa, pb)))
    if op == '>=': return mkb(ge(ALG.sub(pa, pb)))
    if op == '<': return mkb(dd.NOT(ge(ALG.sub(pa, pb))))
    if op == '<=': return mkb(ge(ALG.sub(pb, pa)))
    if op == '>': return mkb(dd.NOT(ge(ALG.sub(pb, pa))))
    raise Unsupported('operator ' + op)


def eqg2(p, q):
    if hascomplex(p) or hascomplex(q):
        a, b = parts(mk(p)), parts(mk(q))
        return ALG.dd.AND(eqg(a[0], b[0]), eqg(a[1], b[1]))
    return eqg(p, q)


def ge(d):
    return ALG.ge0i(d) if ALG.isintpoly(d) else ALG.ge0r(d)


def ite(g, a, b):
    """abstract scalar selection"""
    dd = ALG.dd
    if g == dd.T: return a
    if g == dd.F: return b
    if a is b: return a
    if isinstance(a, Unknown): return a
    if isinstance(b, Unknown): return b
    if isinstance(a, (B, bool, np.bool_)) and isinstance(b, (B, bool, np.bool_)):
        return mkb(dd.ITE(g, truth(a), truth(b)))
    if isnum(a) and isnum(b):
        return mk(ALG.ite(g, num(a), num(b)))
    if type(a) is type(b) and not hasattr(a, '__dict__') and a == b: return a
    return Gate.make([(g, a), (dd.NOT(g), b)])


class Gate(object):
    """one of several non-numeric values, selected by disjoint guards"""
    def __init__(self, alts):
        self.alts = alts

    @staticmethod
    def make(alts):
        dd = ALG.dd
        flat = []
        for g, v in alts:
            if isinstance(v, Gate):
                flat += [(dd.AND(g, h), w) for h, w in v.alts]
            else:
                flat.append((g, v))
        out = []
        for g, v in flat:
            if g == dd.F: continue
            for i, (h, w) in enumerate(out):
                if w is v or (type(w) is type(v) and isinstance(v, (str, int, type(None))) and w == v):
                    out[i] = (dd.OR(h, g), w)
                    break
            else:
                out.append((g, v))
        if len(out) == 1: return out[0][1]
        return Gate(out)

    def under(self, g):
        dd = ALG.dd
        out = [(h, v) for h, v in self.alts if dd.AND(h, g) != dd.F]
        if len(out) == 1: return out[0][1]
        return self

    def __repr__(self):
        return 'Gate(%r)' % (self.alts,)


# ------------------------------------------------------------------ atoms

def atoms_in(x, seen=None, stop=()):
    """all atoms (ids) a polynomial / guard / key depends on, through nested keys,
    not looking below uninterpreted functions named in stop"""
    out = set()
    seenk = set()

    def node(n):
        if ('n', n) in seenk: return
        seenk.add(('n', n))
        for v in ALG.dd.support(n):
            lit(ALG.dd.litname[v])

    def lit(k):
        if ('l', k) in seenk: return
        seenk.add(('l', k))
        if k[0] == 'phi': atom(k[1])
        elif k[0] in ('ge', 'r', 'er'):
            for m, c in k[1]:
                for a, e in m: atom(a)
        elif k[0] == 'sneg':
            key(k[1])
            key(k[2])
        else:
            out.add(('lit', k))
            if k[0] == 'bu' and k[1] in stop: return
            for y in k[1:]: val(y)

    def key(pk):
        for m, c in pk:
            for a, e in m: atom(a)
            node(c)

    def atom(a):
        if a in out: return
        out.add(a)
        k = ALG.atoms[a]
        if k[0] in ('v', 'I', 'const'): return
        if k[0] == 'u':
            if k[1] in stop: return
            for y in k[2:]: val(y)
            return
        if k[0] in ('fn',):
            for y in k[2:]: key(y)
            return
        for y in k[1:]:
            if isinstance(y, tuple): key(y)

    def val(y):
        if not isinstance(y, tuple) or not y: return
        if y[0] == 'p': key(y[1])
        elif y[0] == 'b': node(y[1])
        elif y[0] in ('t', 'l'):
            for z in y[1:]: val(z)
        elif y[0] == 'x':
            for z in y[1:]: val(z)
    if isinstance(x, dict): key(ALG.key(x))
    elif isinstance(x, int): node(x)
    elif isinstance(x, S): key(ALG.key(x.p))
    elif isinstance(x, B): node(x.g)
    else: val(x)
    return out


UNIFORM = ('allreduce', 'allreduce*', 'allgather', 'bcast', 'Allreduce')


def islocal(x):
    """does the value depend on data that differ between the ranks?"""
    for a in atoms_in(x, stop=UNIFORM):
        if isinstance(a, tuple):
            k = a[1]
            if len(k) > 2 and k[2] == 'L': return True
            continue
        k = ALG.atoms[a]
        if k[0] == 'v' and k[2] == 'L': return True
        if k[0] == 'u' and k[1].startswith('local:'): return True
    return False


# ------------------------------------------------------------------ evaluation

def h01(*xs):
    """pseudo random number in (0, 1)"""
    s = repr(xs).encode()
    a = zlib.crc32(s)
    b = zlib.crc32(s + b'#')
    return Fraction((a * 4294967296 + b) % 1000003 + 1, 1000005)


class PEval(Eval):
    """evaluation of abstract values at an assignment; uninterpreted functions are
    interpreted by hashes of their arguments"""

    def __init__(self, base, seed=0):
        Eval.__init__(self, ALG, base)
        self.seed = seed
        self.imag = Fraction(1618033, 1000000)     # a generic point for I (only linear)

    def _atom(self, k):
        if k in self.base: return self.base[k]
        if k[0] == 'I': return self.imag
        if k[0] == 'v':
            r = h01(self.seed, k)
            a = ALG.aid[k]
            lo, hi = ALG.draw.get(k) or ALG.bounds[a]
            if k in ALG.hidep: hi = max(self.poly(ALG.hidep[k]), lo or 0)
            if ALG.isint[a]:
                l = lo if lo is not None else (1 if a in ALG.positive else -7)
                h = hi if hi is not None else l + 14
                return Fraction(int(l) + int(r * (h - l + 1)))
            if lo is None: lo = Fraction(1, 10) if a in ALG.positive else Fraction(-4)
            if hi is None: hi = lo + 8
            return lo + r * (hi - lo)
        if k[0] == 'const':
            return h01(k) * 1000
        if k[0] == 'u':
            r = h01(self.seed, k[1], tuple(self.val(y) for y in k[2:]))
            a = ALG.aid[k]
            lo, hi = ALG.bounds[a]
            if ALG.isint[a]:
                l = lo if lo is not None else 0
                h = hi if hi is not None else l + 20
                return Fraction(int(l) + int(r * (h - l + 1)))
            if lo is not None and hi is not None: return lo + r * (hi - lo)
            return r * 4 - 1
        if k[0] == 'inv':
            v = self.poly(dict(k[1]))
            return 1 / v if v != 0 else h01(k) * 997
        if k[0] == 'fn':
            try:
                return Eval._atom(self, k)
            except ValueError:
                return h01(k, tuple(self.poly(dict(y)) for y in k[2:]))
        if k[0] in ('wrap', 'wlo', 'whi') and self.poly(dict(k[2])) == 0:
            return Fraction(0)
        return Eval._atom(self, k)

    def mono(self, m):
        v = Fraction(1)
        for a, e in m:
            x = self.atom(a)
            if e < 0 and x == 0: x = Fraction(1, 977)
            v *= x ** e
        return v

    def val(self, y):
        if not isinstance(y, tuple) or not y: return y
        if y[0] == 'p': return self.poly(dict(y[1]))
        if y[0] == 'b': return self.node(y[1])
        if y[0] in ('t', 'l', 'x'): return tuple(self.val(z) for z in y[1:])
        return y

    def lit(self, k):
        if k[0] == 'bv':
            if k in self.base: return self.base[k]
            return h01(self.seed, 'bool', k) > Fraction(1, 2)
        if k[0] == 'bu':
            return h01(self.seed, 'bool', k[1], tuple(self.val(y) for y in k[3:])) > Fraction(1, 2)
        return Eval.lit(self, k)


def bvar(name, local=False):
    return B(ALG.dd.lit(('bv', name, 'L' if local else 'U')))


def bu(name, *args, local=False):
    return B(ALG.dd.lit(('bu', name, 'L' if local else 'U') + tuple(akey(a) for a in args)))


def guardat(name, r, g):
    """a condition as evaluated on rank r: conditions on local data become atoms shared by all ranks"""
    dd = ALG.dd
    memo = {}

    def go(n):
        if n in memo: return memo[n]
        d = dd.nodes[n]
        if d[0] == 't': t = n
        else:
            L = dd.mk(d[0], dd.F, dd.T)
            if islocal(B(L)): L = bu(name, r, S({(): L})).g
            t = dd.ITE(L, go(d[2]), go(d[1]))
        memo[n] = t
        return t
    return go(g)


def unames(x):
    """names of the uninterpreted functions and undecided literals of a value"""
    out = set()
    for a in atoms_in(x):
        if isinstance(a, tuple):
            k = a[1]
            if k[0] == 'bv' and str(k[1]).startswith('?'): out.add('?')
            elif k[0] == 'bu': out.add(k[1])
        else:
            k = ALG.atoms[a]
            if k[0] == 'u': out.add(k[1])
            elif k[0] == 'const': out.add('const')
    return out


def differ(a, b, n=24, base=None, guard=None, allowed=()):
    """None if the normal forms of the value a and its specification b are equal, a
    PEval at which they differ, or 'undecided' if neither: in particular when a is
    computed with functions which the specification does not know"""
    if isinstance(a, Unknown) or isinstance(b, Unknown): return 'undecided'
    if isinstance(a, Gate) or isinstance(b, Gate): return 'undecided'
    if not isnum(a) or not isnum(b):
        return 'undecided'
    d = ALG.sub(num(a), num(b))
    if guard is not None and guard != ALG.dd.T: d = ALG.guard(guard, d)
    if not d or ALG.zero(d): return None
    extra = unames(num(a)) - unames(num(b)) - set(allowed)
    if guard is not None and '?' in unames(guard): extra.add('?')
    if extra - {'overwritten', 'memory'}: return 'undecided'
    for s in range(n):
        try:
            ev = PEval(base(s) if callable(base) else dict(base or {}), seed=s)
            va = ev.poly(d)
        except Unsupported:
            return 'undecided'
        except ZeroDivisionError:
            continue
        if abs(va) > Fraction(1, 10 ** 9): return ev
    try:
        if lin.zero(ALG, unreduce(d)): return None
    except Unsupported:
        pass
    return steer(d, base) or 'undecided'


def paths(node, want, limit=48):
    """[(literal, truth)...] of the paths to the leaves accepted by want"""
    dd = ALG.dd
    out = []

    def walk(n, lits):
        if len(out) >= limit: return
        d = dd.nodes[n]
        if d[0] == 't':
            if want(d[1]): out.append(lits)
            return
        k = dd.litname[d[0]]
        walk(d[1], lits + [(k, False)])
        walk(d[2], lits + [(k, True)])
    walk(node, [])
    return out


def steer(d, base=None, cond=None):
    """an assignment on one of the paths on which d is not identically zero, found by moving integers across the conditions of the path"""
    todo = []
    for m, c in (d or {(): cond}).items():
        if ALG.dd.isterm(c): continue
        todo += paths(c, lambda v: v != 0)
        if len(todo) > 96: break
    for lits in todo:
        for s in range(3):
            try:
                ev = onpath(lits, s, base)
                if ev is None: continue
                if d is None:
                    if ev.node(cond) != 0: return ev
                elif abs(ev.poly(d)) > Fraction(1, 10 ** 9): return ev
            except (Unsupported, ZeroDivisionError, ValueError, OverflowError):
                continue
    return None


def limits(ev, k):
    a = ALG.aid[k]
    lo, hi = ALG.draw.get(k) or ALG.bounds[a]
    if lo is None and a in ALG.positive: lo = Fraction(1)
    if k in ALG.hidep: hi = max(ev.poly(ALG.hidep[k]), lo or 0)
    return lo, hi


def onpath(lits, s, base):
    b = dict(base(s) if callable(base) else base or {})
    fixed = set(b)
    for step in range(30):
        ev = PEval(dict(b), seed=s)
        bad = [(k, t) for k, t in lits if bool(ev.lit(k)) != t]
        if not bad: return ev
        k, t = bad[step % len(bad)]
        if k[0] == 'bv':
            if k in fixed: return None
            b[k] = t
            continue
        if k[0] not in ('ge', 'r'): return None
        cand = sorted({ALG.atoms[a] for m, v in k[1] for a, e in m if ALG.atoms[a][0] == 'v' and ALG.isint[a] and ALG.atoms[a] not in fixed}, key=repr)
        val = lambda e: sum((e.mono(m) * v for m, v in k[1]), Fraction(0))
        v0 = val(ev)
        done = False
        for q in cand[s % len(cand):] + cand[:s % len(cand)] if cand else ():
            x = ev.atom(ALG.aid[q])
            v1 = val(PEval({**b, q: x + 1}, seed=s))
            c = v1 - v0
            if c == 0: continue
            # the smallest move after which the condition is as wanted
            want = -v0 / c if t else (Fraction(-1) - v0) / c
            r = x + (math.ceil(want) if want > 0 else math.floor(want))
            lo, hi = limits(ev, q)
            if lo is not None and r < lo or hi is not None and r > hi: continue
            b[q] = Fraction(r)
            done = True
            break
        if not done: return None
    return None


def unreduce(d):
    """the sums over the ranks replaced by their terms: the reduction is linear"""
    out = {}
    for m, c in d.items():
        red = [(a, e) for a, e in m if ALG.atoms[a][:3] == ('u', 'allreduce', ('c', 'SUM'))]
        t = {tuple(x for x in m if x not in red): c}
        if len(red) > 1 or any(e != 1 for a, e in red): return d
        if islocal({k: c for k, c in t.items()}) and red: return d
        for a, e in red:
            k = ALG.atoms[a][3]
            if k[0] != 'p': return d
            t = ALG.mul(t, dict(k[1]))
        out = ALG.add(out, t)
    return out


def truthdiff(g, h, n=24, base=None, allowed=()):
    """the same for a condition g and its specification h"""
    if g == h: return None
    dd = ALG.dd
    x = dd.OR(dd.AND(g, dd.NOT(h)), dd.AND(h, dd.NOT(g)))
    x = ALG.simp(x)
    if x == dd.F: return None
    if unames(g) - unames(h) - set(allowed): return 'undecided'
    for s in range(n):
        try:
            ev = PEval(base(s) if callable(base) else dict(base or {}), seed=s)
            if ev.node(x) != 0: return ev
        except Unsupported:
            return 'undecided'
        except ZeroDivisionError:
            continue
    if lin.zero(ALG, {(): x}): return None
    return steer(None, base, x) or 'undecided'
