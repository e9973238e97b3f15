"""The scale invariant index: pmesh/_invariant_imp.c from the compiler IR, with a symbolic shell"""
import itertools
import os
from fractions import Fraction as F

from cfront import Module, lower
from cval import Num, UNDEF, Unsupported, Eval
from cint import Interp, Obj

ENTRY = '@pmesh_get_invariant_index'


class InvModule(object):
    def __init__(self, repo):
        self.mod = Module(lower(os.path.join(repo, 'pmesh', '_invariant_imp.c'), includes=(os.path.join(repo, 'pmesh'),), passes='mem2reg,lcssa'))


class Inv(Interp):
    MAXITER = 100000

    def __init__(self, mod):
        Interp.__init__(self, mod)
        self.subs = []

    def cell(self, obj, c, ty):
        n = getattr(obj, 'extent', None)
        if n is not None and not 0 <= c < n: raise Unsupported('byte %d of %s' % (c, obj.name))
        return Interp.cell(self, obj, c, ty)

    def call1(self, name, vals, g, i, fn):
        if name in self.stack: return self.sub(vals, g, i)
        return Interp.call1(self, name, vals, g, i, fn)

    def ints(self, v):
        c = self.alg.const(self.num(v))
        if c is None: raise Unsupported('argument of the recursion')
        return int(c)

    def sub(self, vals, g, i):
        """the index of the problem within a cap, known by induction"""
        if len(vals) != 4: raise Unsupported('arguments of the recursion')
        n, mask = self.ints(vals[0]), self.ints(vals[2])
        p = vals[1]
        if len(p.alts) != 1: raise Unsupported('argument of the recursion')
        h, o, off = p.alts[0]
        off = self.alg.const(off)
        if off is None: raise Unsupported('argument of the recursion')
        x = []
        for k in range(n):
            v = self.objs[o].cells.get(int(off) + 8 * k, UNDEF)
            if v is UNDEF: raise Unsupported('undefined argument of the recursion')
            x.append(self.num(v))
        a = self.alg
        ml = self.num(vals[3])
        s = a.A(a.atom(('sub', len(self.subs)), isint=True, lo=F(0)))
        self.subs.append((n, x, mask, ml, s, g, '%s:%s' % (os.path.basename(str(i.file)), i.line)))
        # the answer, cut at the maximum length
        cut = self.dd.AND(a.ge0i(ml), a.ge0i(a.sub(s, ml)))
        return Num(a.ite(cut, a.C(-1), s))


class Mode(object):
    """one call: signs[d] is '+' or '-' (on the shell) or None (within); the inner coordinates have a known order and sign"""
    def __init__(self, nm, ndim, pattern, inner, cmask, ml, zero=False):
        self.it = it = Inv(nm.mod)
        self.alg = a = it.alg
        self.ndim, self.pattern, self.cmask = ndim, pattern, cmask
        var = lambda n: a.A(a.atom(('v', n), isint=True, lo=F(0)))
        x = [None] * ndim
        # chain of magnitudes
        m = {}
        pos = True
        for k, (d, sign) in enumerate(inner):
            m = a.add(m, var('b%d' % k))
            if sign == '-' and pos:
                m = a.add(m, a.C(1))
                pos = False
            x[d] = m if sign == '+' else a.neg(m)
        self.u = a.add(m, var('u'))
        self.s = a.add(self.u, a.C(1))
        for d, c in enumerate(pattern):
            if c == '+': x[d] = self.s
            elif c == '-': x[d] = a.neg(self.s)
        if zero: x = [{}] * ndim
        self.x = x
        o = Obj('x', 'local')
        o.extent = 8 * ndim
        it.objs['x'] = o
        for d in range(ndim): o.cells[8 * d] = Num(x[d])
        self.ml = var('ml') if ml else a.C(-1)
        C = lambda v: Num(a.C(v))
        r = it.call(ENTRY, [C(ndim), it.ptr('x'), C(cmask), Num(self.ml)])
        if r is UNDEF: raise Unsupported('no value')
        self.value = it.num(r)

    def __str__(self):
        return '%d axes%s, mode (%s)' % (self.ndim, '' if not self.cmask else ', last compressed' if self.cmask == 1 << (self.ndim - 1) else ', mask %d' % self.cmask,
                                         ', '.join({'+': 's', '-': '-s', None: 'inside'}[c] for c in self.pattern))


def patterns(ndim):
    return [p for p in itertools.product('+-*', repeat=ndim) if set(p) - {'*'}]


def inners(axes):
    """orders and signs of the inner coordinates"""
    for o in itertools.permutations(axes):
        for s in itertools.product('+-', repeat=len(o)): yield list(zip(o, s))
