"""Fourier modes, reductions, order of the elements, resampling"""
from fractions import Fraction
import itertools

import numpy as np

import pyval as V
from pyval import S, B, Gate, Unknown, Unsupported, isnum, num, mk, mkb
import pyflow as P
import pynumpy as N
import pymodel as M
from pychecks import (geometries, layout, fieldclass, gstart, gindex, folded, coord, circular, marker, tableof, short)


def allsum(E, x):
    return x if E.size == 1 else M.allred('SUM', x)


def vand(*gs):
    g = V.ALG.dd.T
    for h in gs: g = V.ALG.dd.AND(g, h)
    return g


def metricfn(name='metric'):
    def f(I, k): return I.ufunc(lambda x: V.u(name, x), k)
    return P.Native(f, name)


def knorm(E, n, j):
    s = 0
    for d in range(E.ndim):
        x = coord(E, n, d, j[d])
        s = V.binop('+', s, V.binop('*', x, x))
    return V.realpow(s, Fraction(1, 2))


def weight(E, n, j):
    """multiplicity of a stored mode"""
    if E.dtype[0] == 'c': return 1
    d = E.ndim - 1
    i = gindex(E, n, d, j[d])
    c = V.cmp('!=', V.binop('%', V.binop('-', E.Nm[d], i), E.Nm[d]), i)
    return V.ite(V.truth(c), 2, 1)


def abs2(x):
    re, im = V.parts(x)
    A = V.ALG
    return mk(A.add(A.mul(re, re), A.mul(im, im)))


def total(xs):
    s = 0
    for x in xs: s = V.binop('+', s, x)
    return s


def idxbase(E, n, sh):
    """assignments at which the index hits a local cell, its conjugate does, or both coincide"""
    nd = E.ndim

    def base(s):
        ev = V.PEval({}, seed=s)
        out = {}
        for d in range(nd):
            Nd = int(ev.poly(num(E.Nm[d])))
            sk = ('v', ('istart' if n == 'R' else 'ostart' + n) + str(d), 'L')
            st = int(ev.poly(num(gstart(n, d))))
            if s % 5 == 0: st = 0
            out[sk] = Fraction(st)
            j = (s // 5 + d) % sh[d]
            k = st + j
            if s % 5 in (0, 3): k = st if s % 2 else k
            if s % 5 in (1, 3): k = (Nd - k) % Nd
            if s % 4 == 2: k -= Nd
            out[('v', 'idx%d' % d, 'U')] = Fraction(k)
        return out
    return base


def dualvars(E, n, idx):
    w, dual = [], []
    for d in range(E.ndim):
        x = V.ite(V.truth(V.cmp('<', idx[d], 0)), V.binop('+', idx[d], E.Nm[d]), idx[d])
        w.append(x)
        dual.append(V.binop('%', V.binop('-', E.Nm[d], idx[d]), E.Nm[d]))
    return w, dual


def hits(E, n, w, j):
    return vand(*[V.truth(V.cmp('==', w[d], gindex(E, n, d, j[d]))) for d in range(E.ndim)])


def P08(C):
    C.rep.rule('cnorm and cdot of every Fourier type are compared, as normal forms in symbolic mesh sizes and local starts, with the sum over the ranks of weight * |a|^2 (times the metric) and '
               'weight * a * conj(b), where the weight is 2 for a mode of a half-stored field whose conjugate along the last axis is another mode; csetitem with a symbolic global index is compared with '
               'the assignment of y to the cell with that index (negative indices wrapped), of conj(y) to the cell with the opposite index, and of the real part where they coincide.')
    for dt, padded, size, ndim in geometries(C):
        tag = '%s %s %dd %d ranks' % (dt, 'padded' if padded else 'non-padded', ndim, size)
        for n in ('T', 'U'):
            for metric in (None, 'metric'):
                def go():
                    # at least three cells along the last axis
                    E = C.env(dtype=dt, padded=padded, size=size, ndim=ndim, penv=dict(oshapeU=(2, 1, 3) if ndim == 3 else (1, 3), oshapeT=(1, 2, 3) if ndim == 3 else (2, 3)))
                    a = E.field(n, 'a')
                    av = E.value(a).copy()
                    cells = list(np.ndindex(*av.shape))
                    kw = dict(metric=metricfn()) if metric else {}
                    mf = lambda j: V.u('metric', knorm(E, n, j)) if metric else 1
                    r = E.method(a, 'cnorm', **kw)
                    want = allsum(E, total(V.binop('*', V.binop('*', abs2(av[j]), weight(E, n, j)), mf(j)) for j in cells))
                    # the norm is real: its storage may be complex
                    C.same('cnorm', r, want)
                    C.samearr('the field is unchanged by cnorm', E.value(a), av)
                    b = E.field(n, 'b')
                    bv = E.value(b).copy()
                    r = E.method(a, 'cdot', b, **kw)
                    want = allsum(E, total(V.binop('*', V.binop('*', V.binop('*', av[j], V.conj(bv[j])), weight(E, n, j)), mf(j)) for j in cells))
                    C.same('cdot', r, want)
                    C.samearr('the field is unchanged by cdot', E.value(a), av)
                    C.samearr('the other field is unchanged by cdot', E.value(b), bv)
                C.scen('norms of %s metric %s %s' % (n, metric, tag), go)
        for n in ('R', 'T', 'U'):
            comps = (None,) if n == 'R' else (None, 0, 1)
            for comp in comps:
                def go():
                    one_ = (1, 1, 2) if ndim == 3 else (1, 2)
                    E = C.env(dtype=dt, padded=padded, size=size, ndim=ndim, penv=dict(ishape=one_, oshapeT=one_, oshapeU=one_))
                    a = E.field(n, 'a')
                    av = E.value(a).copy()
                    idx = [V.var('idx%d' % d, isint=True) for d in range(ndim)]
                    base = idxbase(E, n, av.shape)
                    y = M.I_add(V.var('y.re'), V.var('y.im')) if comp is None and a.attrs['value'].dtype.kind == 'c' else V.var('y.re')
                    w, dual = dualvars(E, n, idx)
                    r = E.method(a, 'csetitem', E.I.register(idx + ([] if comp is None else [comp])), y)
                    v = E.value(a)
                    want = np.empty(v.shape, dtype=object)
                    tot = 0
                    herm = n != 'R'
                    for j in np.ndindex(*v.shape):
                        h = hits(E, n, w, j)
                        dh = hits(E, n, dual, j) if herm else V.ALG.dd.F
                        both = vand(h, dh)
                        old = av[j]
                        re, im = V.parts(y)
                        if comp is None:
                            one, two, self_ = y, V.conj(y), mk(re)
                            put = lambda x: x
                        elif comp == 0:
                            one = two = self_ = y
                            put = lambda x: M.I_add(x, mk(V.parts(old)[1]))
                        else:
                            one, two, self_ = y, V.binop('*', -1, y), 0
                            put = lambda x: M.I_add(mk(V.parts(old)[0]), x)
                        want[j] = V.ite(both, put(self_), V.ite(dh, put(two), V.ite(h, put(one), old)))
                        tot = V.binop('+', tot, V.ite(both, self_, V.ite(h, one, 0)))
                    C.samearr('cells after csetitem', v, want, base=base)
                    C.same('value returned by csetitem', r, allsum(E, tot), base=base)
                C.scen('csetitem %s component %s %s' % (n, comp, tag), go)


CHECKS = {'P08': P08}


# ------------------------------------------------------------------ M02 : reductions

def uniform(C, what, v, site=''):
    """no element of the result depends on data of this rank other than by a reduction"""
    if isinstance(v, (Unknown, Gate)):
        C.rep.undec('%s: %s' % (C.name, what))
        return
    data = v.data.ravel() if isinstance(v, P.Arr) else [v]
    for x in data:
        if isinstance(x, Unknown) or not isnum(x):
            C.rep.undec('%s: %s' % (C.name, what))
            return
        if isinstance(x, (S, B)) and V.islocal(x):
            C.rep.violation('%s: %s' % (C.name, what), 'the result depends on the rank: %s%s' % (short(x), site))
            return
    C.rep.ok('%s: %s' % (C.name, what))


def M02(C):
    C.rep.rule('The value of every global operation is compared, as a normal form, with the reduction over all ranks of the contributions of the local cells, and a dependence analysis shows that it does not '
               'depend on rank-local data other than through collective reductions.')
    for dt, padded, size, ndim in geometries(C):
        tag = '%s %s %dd %d ranks' % (dt, 'padded' if padded else 'non-padded', ndim, size)

        def go():
            E = C.env(dtype=dt, padded=padded, size=size, ndim=ndim)
            a, b = E.field('R', 'a'), E.field('R', 'b')
            av, bv = E.value(a).copy(), E.value(b).copy()
            cells = list(np.ndindex(*av.shape))
            for kw in ({}, dict(dtype='f8' if dt[0] == 'f' else 'c16')):
                r = E.method(a, 'csum', **kw)
                C.same('csum%s' % kw, r, allsum(E, total(av[j] for j in cells)))
                if size > 1: uniform(C, 'csum%s is global' % kw, r)
                r = E.method(a, 'cmean', **kw)
                n = 1
                for d in range(ndim): n = V.binop('*', n, E.Nm[d])
                C.same('cmean%s' % kw, r, V.binop('/', allsum(E, total(av[j] for j in cells)), n))
                if size > 1: uniform(C, 'cmean%s is global' % kw, r)
            r = E.method(a, 'cdot', b)
            C.same('cdot', r, allsum(E, total(V.binop('*', av[j], bv[j]) for j in cells)))
            if size > 1: uniform(C, 'cdot is global', r)
            r = E.method(a, 'cnorm')
            C.same('cnorm', r, allsum(E, total(V.binop('*', av[j], av[j]) for j in cells)))
        C.scen('sums of real fields %s' % tag, go)
        for n in ('T', 'U'):
            def go():
                E = C.env(dtype=dt, padded=padded, size=size, ndim=ndim)
                a, b = E.field(n, 'a'), E.field(n, 'b')
                if size > 1:
                    uniform(C, 'cnorm is global', E.method(a, 'cnorm'))
                    uniform(C, 'cdot is global', E.method(a, 'cdot', b))
            C.scen('norms of %s %s' % (n, tag), go)
        for n in ('R', 'T', 'U'):
            for comp in (None,) if n == 'R' else (None, 0, 1):
                def go():
                    one_ = (1, 1, 2) if ndim == 3 else (1, 2)
                    E = C.env(dtype=dt, padded=padded, size=size, ndim=ndim, penv=dict(ishape=one_, oshapeT=one_, oshapeU=one_))
                    a = E.field(n, 'a')
                    av = E.value(a).copy()
                    idx = [V.var('idx%d' % d, isint=True) for d in range(ndim)]
                    r = E.method(a, 'cgetitem', E.I.register(idx + ([] if comp is None else [comp])))
                    w, dual = dualvars(E, n, idx)
                    pick = lambda x: x if comp is None else mk(V.parts(x)[comp])
                    want = allsum(E, total(V.ite(hits(E, n, w, j), pick(av[j]), 0) for j in np.ndindex(*av.shape)))
                    C.same('cgetitem', r, want, base=idxbase(E, n, av.shape))
                    if size > 1: uniform(C, 'cgetitem is global', r)
                C.scen('cgetitem %s component %s %s' % (n, comp, tag), go)
    # previews: concrete mesh, this rank stores a part of it
    for ndim, Nm, st, sh in ((3, (2, 3, 4), (1, 0, 2), (1, 2, 2)), (2, (3, 4), (1, 2), (2, 2))):
        for axes in ([None, [0], [2, 0], [1, 2], [2, 1, 0], 1] if ndim == 3 else [None, [1, 0], 0]):
            for dt in ('f8', 'c16'):
                def go():
                    E = C.env(dtype=dt, ndim=ndim, Nm=Nm, penv=dict(ishape=sh, istart=st, iedges=[sorted(set([0, s_, s_ + n_, N_])) for s_, n_, N_ in zip(st, sh, Nm)]))
                    a = E.field('R', 'a')
                    av = E.value(a).copy()
                    r = E.method(a, 'preview', **({} if axes is None else dict(axes=E.I.register(list(axes)) if isinstance(axes, list) else axes)))
                    ax = list(range(ndim)) if axes is None else axes if isinstance(axes, list) else [axes]
                    want = np.zeros([Nm[x] for x in ax], dtype=object)
                    for j in np.ndindex(*av.shape):
                        g = tuple(st[x] + j[x] for x in ax)
                        want[g] = V.binop('+', want[g], av[j])
                    for j in np.ndindex(*want.shape): want[j] = allsum(E, want[j])
                    C.samearr('preview', r, want)
                    uniform(C, 'preview is global', r)
                    C.samearr('the field is unchanged', E.value(a), av)
                C.scen('preview axes %s %dd %s' % (axes, ndim, dt), go)
    # the preview of a spectrum is that of the image
    for n, axes, dt in itertools.product('TU', (None, [2, 0]), ('f8', 'c16')):
        def go():
            E = C.env(dtype=dt)
            a = E.field(n, 'a')
            av = E.value(a).copy()
            kw = {} if axes is None else dict(axes=E.I.register(list(axes)))
            want = E.method(E.method(a, 'c2r'), 'preview', **kw)
            r = E.method(a, 'preview', **kw)
            C.samearr('preview', r, want.data)
            C.samearr('the field is unchanged', E.value(a), av)
        C.scen('preview of %s axes %s %s' % (n, axes, dt), go)
    # domains
    def gridgo(periodic):
        def go():
            I, g = gridnd(C, periodic=periodic)
            pos = particles(I, 'x', 2)
            r = I.call(I.getattr(g, 'load'), [pos], {})
            uniform(C, 'load is global', r)
            ev = [e for e in I.events if e.kind == 'coll' and e.args['op'] in ('allreduce', 'Allreduce')]
            if len(ev) == 1: C.require('loads are summed', ev[0].args['rop'] == 'SUM', 'the numbers of particles are reduced by %s' % ev[0].args['rop'], ev[0].site)
        return go
    for periodic in (True, False): C.scen('load periodic %s' % periodic, gridgo(periodic))

    def go():
        I, L, sc, idx = mklayout(C)
        r = I.call(I.getattr(L, 'get_exchange_cost'), [], {})
        uniform(C, 'exchange costs are global', r)
        if isinstance(r, P.Arr):
            C.require('one cost per rank', r.data.shape == (3,), 'has the shape %s' % (r.data.shape,))
            rk = I.world.attr(I, 'rank')
            loc = 0
            for q in range(3):
                loc = V.binop('+', loc, V.ite(V.truth(V.cmp('!=', rk, q)), sc.data[q], 0))
            C.samearr('costs', r, [M.atrank('allgather', q, loc) for q in range(3)])
    C.scen('get_exchange_cost', go)


def particles(I, name, ncol=None, n=None):
    n = n if n is not None else M.npart()
    a = I.new(np.empty((1,) if ncol is None else (1, ncol), dtype=object), 'f8', {0: n})
    M.fillsrc(a, name)
    return a


def gridnd(C, shape=(2, 2), size=3, rank=None, periodic=True, assign=None, edges=None, fresh=True):
    I = M.interp(size, rank, fresh=fresh)
    C.E = type('E', (), dict(I=I))
    m = I.module('pmesh.domain').env
    ed = []
    for d, k in enumerate(shape):
        if edges is not None: e = edges[d]
        else:
            e, x = [0], 0
            for i in range(k):
                x = V.binop('+', x, V.var('w%d_%d' % (d, i), positive=True))
                e.append(x)
        a = I.asarr(list(e))
        a.dtype = np.dtype('f8')
        ed.append(a)
    kw = dict(comm=I.world, periodic=periodic)
    if assign is not None:
        a = I.asarr(list(assign))
        a.dtype = np.dtype('i4')
        kw['DomainAssign'] = a
    return I, I.call(m['GridND'], [I.register(ed)], kw)


def mklayout(C, size=3, rank=None):
    I = M.interp(size, rank)
    C.E = type('E', (), dict(I=I))
    m = I.module('pmesh.domain').env
    sc = I.asarr([V.var('send%d' % r, local=True, isint=True, lo=Fraction(0)) for r in range(size)])
    sc.dtype = np.dtype('i4')
    idx = particles(I, 'ind', n=V.var('nind', local=True, isint=True, lo=Fraction(0)))
    idx.dtype = np.dtype('i4')
    M.fillsrc(idx, 'ind')
    L = I.call(m['Layout'], [I.world, M.npart(), sc, idx], {})
    return I, L, sc, idx


CHECKS['M02'] = M02


# ------------------------------------------------------------------ P12 : order of the elements

def cindex(E, n, j, cshape):
    r = 0
    for d in range(E.ndim): r = V.binop('+', V.binop('*', r, cshape[d]), gindex(E, n, d, j[d]))
    return r


def fullshape(E, n):
    half = E.I.binop('+', E.I.binop('//', E.Nm[E.ndim - 1], 2), 1)
    return [half if d == E.ndim - 1 and n != 'R' and E.dtype[0] == 'f' else E.Nm[d] for d in range(E.ndim)]


def pairs(C, what, e, E, n, values):
    """each value of the cells is accompanied by the global index of its cell"""
    cs = fullshape(E, n)
    want = [cindex(E, n, j, cs) for j in np.ndindex(*values.shape)]
    key = e.args['key'].data.ravel()
    if key.size != len(want):
        C.rep.violation('%s: %s' % (C.name, what), 'there are %d keys for %d cells at %s' % (key.size, len(want), e.site))
        return
    C.samearr(what, key, np.array(want + [None], dtype=object)[:-1], e.site)


def moved(E):
    """whether anything but single numbers is communicated"""
    for e in E.events():
        if e.kind.startswith('mpsort'): return True
        if e.kind == 'coll' and e.args.get('op') not in ('Barrier', 'barrier', 'allreduce'): return True
    return False


def P12(C):
    C.rep.rule('ravel and unravel are interpreted for every type of field with symbolic mesh sizes and starts: the keys handed to the distributed sort and permutation are compared, cell by cell, with the global C index of '
               'the cell built from its local index, the start and the global shape, the sorted values with the values of the cells, the written cells with the permuted values of their own index; '
               'on one rank both are compared with the direct copy.')
    for dt, padded, size, ndim in geometries(C) + [('f8', True, 2, 3), ('f4', False, 2, 2)]:
        tag = '%s %s %dd %d ranks' % (dt, 'padded' if padded else 'non-padded', ndim, size)
        for n in ('R', 'T', 'U'):
            for meth in ('ravel', 'sort'):
                for out in (None, 'Ellipsis', 'array', 'flat'):
                    if meth == 'sort' and out not in (None, 'array'): continue

                    def go():
                        E = C.env(dtype=dt, padded=padded, size=size, ndim=ndim)
                        a = E.field(n, 'a')
                        av = E.value(a).copy()
                        o = None
                        if out == 'Ellipsis': o = Ellipsis
                        elif out:
                            arr = E.I.new(np.empty(av.shape, dtype=object), a.attrs['value'].dtype)
                            M.fillsrc(arr, 'o')
                            o = arr if out == 'array' else P.Flat(arr)
                        E.mark()
                        r = E.method(a, meth, *([] if out is None else [o]))
                        ra = r.arr if isinstance(r, P.Flat) else E.I.asarr(r)
                        if out == 'Ellipsis': C.require('in place', np.shares_memory(ra.data, a.attrs['value'].data), 'the result is not in the memory of the field')
                        elif out: C.require('result is the output', np.shares_memory(ra.data, arr.data), 'the output argument is not used')
                        else: C.samearr('the field is unchanged', E.value(a), av)
                        if size == 1:
                            C.samearr('copy in C order', ra.data.ravel(), av.ravel())
                            return
                        ev = E.events('mpsort.sort')
                        if not ev and not moved(E):
                            C.require('distributed sort', False, 'the values are not sent to the ranks which hold their place in the order')
                            return
                        if len(ev) != 1 or ev[0].guard != V.ALG.dd.T:
                            C.rep.undec('%s: %d distributed sorts' % (C.name, len(ev)))
                            return
                        e = ev[0]
                        C.require('communicator', e.args['comm'] is E.I.world, 'sorts on another communicator', e.site)
                        C.samearr('sorted values', e.args['src'].ravel(), av.ravel(), e.site)
                        pairs(C, 'keys of the cells', e, E, n, av)
                        src, ok = E.I.new(e.args['src']), e.args['key']
                        dd = ra.data.ravel()
                        C.samearr('result', dd, [M.datum('local:sorted', a.attrs['value'].dtype, src, E.I.new(ok.data.copy()), k) for k in range(dd.size)], e.site)
                    C.scen('%s(%s) of %s %s' % (meth, out, n, tag), go)
            for meth in ('unravel', 'unsort', 'pm'):
                for src in ('array', 'flat'):
                    def go():
                        E = C.env(dtype=dt, padded=padded, size=size, ndim=ndim)
                        a = E.field(n, 'a')
                        av = E.value(a).copy()
                        arr = E.I.new(np.empty(av.size, dtype=object), a.attrs['value'].dtype)
                        M.fillsrc(arr, 'src')
                        sv = arr.data.copy()
                        o = arr if src == 'array' else P.Flat(arr)
                        E.mark()
                        if meth == 'pm':
                            a = E.method(E.pm, 'unravel', E.cls(n), o)
                            C.require('type', fieldclass(E, a) == n, 'a %s is returned' % a.cls.name)
                        else: E.method(a, meth, o)
                        C.samearr('the source is unchanged', arr, sv)
                        v = E.value(a)
                        if size == 1:
                            C.samearr('copy in C order', v.ravel(), sv)
                            return
                        ev = E.events('mpsort.permute', 'mpsort.take')
                        if not ev and not moved(E):
                            C.require('distributed permutation', False, 'the values are not sent to the ranks which store their cells')
                            return
                        if len(ev) != 1 or ev[0].guard != V.ALG.dd.T or ev[0].kind != 'mpsort.permute':
                            C.rep.undec('%s: %d distributed permutations' % (C.name, len(ev)))
                            return
                        e = ev[0]
                        C.require('communicator', e.args['comm'] is E.I.world, 'permutes on another communicator', e.site)
                        pairs(C, 'keys of the cells', e, E, n, v)
                        C.samearr('permuted values', e.args['src'].ravel(), sv, e.site)
                        cs = fullshape(E, n)
                        C.samearr('values of the cells', v.ravel(), [M.datum('local:permuted', a.attrs['value'].dtype, E.I.new(sv), cindex(E, n, j, cs)) for j in np.ndindex(*v.shape)], e.site)
                    C.scen('%s(%s) of %s %s' % (meth, src, n, tag), go)


CHECKS['P12'] = P12


# ------------------------------------------------------------------ X04 : resampling in Fourier space

def freq(i, n): return i if i < (n + 1) // 2 else i - n


def resolves(f, n): return -(n // 2) <= f <= n // 2


def X04(C):
    C.rep.rule('Field.resample is interpreted for pairs of meshes of given sizes with symbolic values: every stored mode of the destination must hold the value which the distributed permutation takes from the global C index '
               'of the same frequency of the source (its real part where the mode of a half-stored field is its own conjugate) and zero where one of the meshes does not resolve it or at a Nyquist frequency of either.')
    sizes = [(8, 4), (4, 8), (6, 4), (4, 6), (8, 6), (6, 8), (5, 8), (8, 5), (7, 5), (5, 7), (6, 5), (5, 6), (4, 4), (5, 5), (10, 4), (7, 4)]
    trip = []
    for k in range(len(sizes)):
        a, b, c = sizes[k], sizes[(k + 3) % len(sizes)], sizes[(k + 7) % len(sizes)]
        trip.append(((a[0], b[0], c[0]), (a[1], b[1], c[1])))
    if C.thorough: trip += [((a[0], b[0], c[0]), (a[1], b[1], c[1])) for k in range(len(sizes)) for a, b, c in [(sizes[k], sizes[(5 * k + 1) % len(sizes)], sizes[(3 * k + 2) % len(sizes)])]]
    for kt, (Ns, Nd) in enumerate(trip):
        if Ns == Nd: continue
        d0 = kt % 2
        for dt in ('f8', 'c16'):
            for src in ('R', 'T', 'U'):
                def go():
                    last = Nd[2] // 2 + 1 if dt == 'f8' else Nd[2]
                    full = (Nd[0], Nd[1], last)
                    # this rank stores all of the destination but for one plane
                    osh = (Nd[0] - 1, Nd[1], last)
                    slast = Ns[2] // 2 + 1 if dt == 'f8' else Ns[2]
                    E = C.env(dtype=dt, Nm=Ns, size=3, penv=dict(ishape=(1, 1, 1), oshapeT=(2, 1, 2), oshapeU=(1, 2, 1), ostartT=(1, 0, 0), ostartU=(0, 1, 0), istart=(0, 0, 0),
                                                              distart=(0, 0, 0), dostartT=(d0, 0, 0), dostartU=(d0, 0, 0)))
                    a = E.field(src, 'a')
                    E.I.penv.update(oshapeT=osh, oshapeU=osh)
                    pm2, N2, L2 = E.other('d', Nm=Nd)
                    o = E.field('T', 'o', pm=pm2)
                    av = E.value(a).copy()
                    E.mark()
                    r = E.method(a, 'resample', o)
                    C.require('the output is returned', r is o, 'another field than the output is returned')
                    C.samearr('the source is unchanged', E.value(a), av)
                    ev = E.events('mpsort.take')
                    st = E.events('mpsort.sort')
                    if len(ev) != 1 or len(st) != 1 or ev[0].guard != V.ALG.dd.T:
                        C.rep.undec('%s: %d permutations' % (C.name, len(ev)))
                        return
                    tmp = st[0].args['result']
                    # what is sorted are the modes of the source, by their global index
                    v = E.value(o)
                    want = np.empty(v.shape, dtype=object)
                    for j in np.ndindex(*v.shape):
                        g = (j[0] + d0, j[1], j[2])
                        f = [freq(i, n) if not (dt == 'f8' and d == 2) else i for d, (i, n) in enumerate(zip(g, Nd))]
                        nyq = any(n % 2 == 0 and abs(x) == n // 2 for x, n in zip(f, Nd)) or any(n % 2 == 0 and abs(x) == n // 2 for x, n in zip(f, Ns))
                        ok = all(abs(x) <= (n - 1) // 2 for x, n in zip(f, Ns)) and not nyq
                        if not ok:
                            want[j] = 0
                            continue
                        s = [x % n for x, n in zip(f, Ns)]
                        c = (s[0] * Ns[1] + s[1]) * slast + s[2]
                        w = M.datum('local:permuted', 'c16', E.I.new(tmp.copy()), c)
                        if dt == 'f8' and all((n - i) % n == i for i, n in zip(g, Nd)): w = mk(V.parts(w)[0])
                        want[j] = w
                    C.samearr('modes', v, want)
                    # the sorted modes and their keys
                    ck = [((i[0] + 1) * Ns[1] + i[1]) * slast + i[2] for i in np.ndindex(2, 1, 2)]
                    if st[0].args['key'].data.size == len(ck): C.samearr('keys of the modes of the source', st[0].args['key'].data.ravel(), ck, st[0].site)
                    if src == 'T': C.samearr('sorted modes of the source', st[0].args['src'].ravel(), av.ravel(), st[0].site)
                C.scen('resample %s %s to %s %s' % (src, Ns, Nd, dt), go)
    for n in ('R', 'T', 'U'):
        for m in ('R', 'T', 'U'):
            for same in (True, False):
                def go():
                    E = C.env(Nm=(4, 6, 8) if not same else None, penv=None if same else dict(ostartT=(1, 2, 0), ostartU=(1, 2, 0), sostartT=(0, 1, 1), sostartU=(0, 1, 1)))
                    pm2, N2, L2 = E.other('s', Nm=E.Nm if same else (6, 4, 8))
                    a, o = E.field(n, 'a'), E.field(m, 'o', pm=pm2)
                    r = E.method(a, 'resample', o)
                    C.require('the output is returned', r is o, 'another field than the output is returned')
                    C.require('type of the output', fieldclass(E, r) == m, 'the output has another type')
                    if same and n == m: C.samearr('copy', E.value(o), E.value(a))
                C.scen('resample of %s to %s, %s meshes' % (n, m, 'equal' if same else 'different'), go)


CHECKS['X04'] = X04
