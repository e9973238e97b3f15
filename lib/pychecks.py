"""Decision procedures of the properties of the Python layer.

Each scenario is one abstract call of a public function: arguments and geometry
are symbolic, the function is interpreted abstractly, and the resulting values
and events are compared, as normal forms, with what the property demands.
"""
import os
import sys
import time
from fractions import Fraction

import numpy as np

import pyval as V
from pyval import S, B, Gate, Unknown, Unsupported, isnum, num, mk, mkb
import pyflow as P
import pynumpy as N
import pymodel as M
from report import Report, REPO, Budget, limit


class Ctx(object):
    def __init__(self, pid, tier):
        self.rep = Report(pid, tier)
        self.tier = tier
        self.thorough = tier == 'thorough'
        self.unk = []
        self.debug = bool(os.environ.get('VERIF_DEBUG'))
        self.funcs = set()

    def scen(self, name, fn):
        """run one scenario; anything the analysis cannot follow is undecided"""
        self.rep.count('scenarios', 1)
        self.name = name
        self.E = None
        if len(self.rep.violations) >= 40:
            self.rep.undec('%s: left out after %d violations' % (name, len(self.rep.violations)))
            return
        try:
            limit('cpu', 120 if not self.thorough else 1200)
            try: fn()
            finally: limit('cpu', 0)
        except Budget:
            self.rep.undec('%s: takes too long' % name)
        except P.AbsRaise as e:
            self.rep.undec('%s: raises %s' % (name, e))
        except P.Dead:
            self.rep.undec('%s: no normal exit' % name)
        except (Unsupported, RecursionError) as e:
            self.rep.undec('%s: %s' % (name, e))
        except Exception as e:
            if os.environ.get('VERIF_DEBUG'):
                import traceback
                traceback.print_exc()
            self.rep.undec('%s: %s: %s' % (name, type(e).__name__, e))
        if self.E is not None:
            self.funcs |= set(self.E.I.funcs)

    def env(self, **k):
        self.E = E = M.Env(**k)
        return E

    # ---- comparisons
    def same(self, what, got, want, site='', allowed=(), guard=None, base=None):
        """got and want are abstract scalars"""
        if got is want: d = None
        else: d = V.differ(got, want, allowed=allowed, guard=guard, base=base)
        self.verdict(what, d, site, lambda: 'is %s instead of %s' % (short(got), short(want)))
        return d is None

    def samearr(self, what, got, want, site='', allowed=(), base=None):
        """elementwise comparison of object arrays (or Arr)"""
        g = got.data if isinstance(got, P.Arr) else np.asarray(got, dtype=object) if not isinstance(got, np.ndarray) else got
        w = want.data if isinstance(want, P.Arr) else np.asarray(want, dtype=object) if not isinstance(want, np.ndarray) else want
        if g.shape != w.shape:
            self.rep.violation('%s: %s' % (self.name, what), 'has the shape %s instead of %s%s' % (g.shape, w.shape, at(site)))
            return False
        for j in np.ndindex(*g.shape):
            if g[j] is w[j]: continue
            d = V.differ(g[j], w[j], allowed=allowed, base=base)
            if d is None: continue
            self.verdict(what, d, site, lambda: 'element %s is %s instead of %s' % (list(j), short(g[j]), short(w[j])))
            return False
        self.rep.ok('%s: %s' % (self.name, what))
        return True

    def cond(self, what, got, want, site='', allowed=()):
        """got and want are guards"""
        self.verdict(what, V.truthdiff(got, want, allowed=allowed), site, lambda: 'condition is %s instead of %s' % (showg(got), showg(want)))

    def verdict(self, what, d, site, msg):
        if d is None: self.rep.ok('%s: %s' % (self.name, what))
        elif d == 'undecided': self.rep.undec('%s: %s%s' % (self.name, what, at(site)))
        else: self.rep.violation('%s: %s' % (self.name, what), msg() + at(site))

    def require(self, what, ok, msg='', site=''):
        if ok is True: self.rep.ok('%s: %s' % (self.name, what))
        elif ok is False: self.rep.violation('%s: %s' % (self.name, what), msg + at(site))
        else: self.rep.undec('%s: %s%s' % (self.name, what, at(site)))


def at(site): return ' at %s' % site if site else ''


def short(x):
    try:
        if isinstance(x, S): s = V.ALG.show(x.p)
        else: s = repr(x)
    except Exception:
        s = repr(x)
    return s if len(s) < 160 else s[:157] + '...'


def showg(g):
    dd = V.ALG.dd
    if g == dd.T: return 'true'
    if g == dd.F: return 'false'
    return 'a condition on ' + ', '.join(sorted(str(dd.litname[v])[:60] for v in dd.support(g))[:4])


def attrs(f, n):
    return f.attrs[n]


DT = {'f8': ('PFFT_R2C', 'PFFT_C2R'), 'f4': ('PFFTF_R2C', 'PFFTF_C2R'), 'c16': ('PFFT_C2C', 'PFFT_C2C'), 'c8': ('PFFTF_C2C', 'PFFTF_C2C')}


def geometries(C):
    out = []
    for dt in ('f8', 'f4', 'c16', 'c8'):
        for padded in (True, False):
            out.append((dt, padded, 3, 3))
    for dt in ('f8', 'c8'):
        out.append((dt, True, 1, 3))
        out.append((dt, True, 3, 2))
    return out


def layout(E, n):
    return E.I.penv['ishape' if n == 'R' else 'oshape' + n][:E.ndim]


# ------------------------------------------------------------------ P01, P02 : transforms

def transforms(C, check):
    """all transform calls; check(E, which, src, srcvalues, out, result, events)"""
    for dt, padded, size, ndim in geometries(C):
        tag = '%s %s %dd %d ranks' % (dt, 'padded' if padded else 'non-padded', ndim, size)
        for out in (None, 'T', 'U', 'Ellipsis', 'self'):
            def go():
                E = C.env(dtype=dt, padded=padded, size=size, ndim=ndim)
                a = E.field('R', 'a')
                av = E.value(a).copy()
                o = {None: None, 'Ellipsis': Ellipsis, 'self': a}.get(out, None)
                if out in ('T', 'U'): o = E.field(out, 'o')
                E.mark()
                r = E.method(a, 'r2c', *([] if out is None else [o]))
                check(C, E, 'r2c', a, av, o, out, r, padded)
            C.scen('r2c(out=%s) %s' % (out, tag), go)
        for src in ('T', 'U'):
            for out in (None, 'R', 'Ellipsis', 'self'):
                def go():
                    E = C.env(dtype=dt, padded=padded, size=size, ndim=ndim)
                    a = E.field(src, 'a')
                    av = E.value(a).copy()
                    o = {None: None, 'Ellipsis': Ellipsis, 'self': a}.get(out, None)
                    if out == 'R': o = E.field('R', 'o')
                    E.mark()
                    r = E.method(a, 'c2r', *([] if out is None else [o]))
                    check(C, E, 'c2r', a, av, o, out, r, padded)
                C.scen('c2r of %s (out=%s) %s' % (src, out, tag), go)


def fieldclass(E, f):
    for n in ('R', 'T', 'U'):
        if isinstance(f, P.Inst) and f.cls is E.cls(n): return n
    return None


def chk_execute(C, E, e, dt, fwd, src, outn, mem, srcvals):
    """one execution of a plan"""
    p = e.args['plan']
    C.require('direction of the plan', p.direction.name == ('PFFT_FORWARD' if fwd else 'PFFT_BACKWARD'), 'the %s transform executes a %s plan' % ('forward' if fwd else 'backward', p.direction.name), e.site)
    C.require('precision and kind of the plan', p.type.name == DT[dt][0 if fwd else 1], 'executes a plan of type %s for dtype %s' % (p.type.name, dt), e.site)
    same = e.args['i'].mem is e.args['o'].mem
    C.require('in-placeness of the plan', p.inplace == same, 'executes an %s plan on %s buffers' % ('in-place' if p.inplace else 'out-of-place', 'identical' if same else 'different'), e.site)
    cn = outn if fwd else src
    fl = p.flags.names
    tr = ('PFFT_TRANSPOSED_OUT' if fwd else 'PFFT_TRANSPOSED_IN') in fl
    C.require('layout of the plan', tr == (cn == 'T') and p.partition.T == (cn == 'T'),
              'executes a plan for %s Fourier fields on a%s field' % ('transposed' if tr else 'untransposed', ' transposed' if cn == 'T' else 'n untransposed'), e.site)
    C.samearr('input of the transform', e.args['src'], srcvals, e.site)


def check_P01(C, E, which, a, av, o, out, r, padded):
    ev = E.events('execute')
    C.rep.count('plan executions', len(ev))
    fwd = which == 'r2c'
    if len(ev) != 1:
        C.rep.undec('%s: %d plan executions' % (C.name, len(ev)))
        return
    e = ev[0]
    if e.guard != V.ALG.dd.T:
        C.rep.undec('%s: conditional execution' % C.name)
        return
    rn = fieldclass(E, r)
    want = ('U' if out == 'U' else 'T') if fwd else 'R'
    C.require('type of the result', rn == want, 'the result is a %s' % (r.cls.name if isinstance(r, P.Inst) else r), e.site)
    C.require('output buffer', e.args['o'].mem is r.attrs['_base'].mem, 'the plan does not write to the buffer of the result', e.site)
    if out in ('T', 'U', 'R'): C.require('result is the output argument', r is o, 'a field other than out is returned', e.site)
    if out in ('Ellipsis', 'self'): C.require('in-place result', r.attrs['_base'].mem is a.attrs['_base'].mem, 'the in-place transform does not reuse the buffer', e.site)
    if out is None: C.require('separate result', r.attrs['_base'].mem is not a.attrs['_base'].mem, 'the result shares the buffer of the input', e.site)
    chk_execute(C, E, e, E.dtype, fwd, fieldclass(E, a), want, r.attrs['_base'].mem, av)


def P01(C):
    C.rep.rule('Every call of r2c and c2r is interpreted abstractly for all precisions, real and complex modes, padded and non-padded process meshes, output arguments and '
               'Fourier layouts; the plan object that reaches execute must have been created with the direction, type, in-placeness, transposition flags and partition of '
               'the buffers it is executed on, and its input buffer must hold the values of the source.')
    transforms(C, check_P01)
    # creation of the plans
    for dt in DT:
        for padded in (True, False):
            def go():
                E = C.env(dtype=dt, padded=padded)
                pl = E.pm.attrs['plans']
                for e in E.I.events:
                    if e.kind != 'plan': continue
                    p = e.args['plan']
                    fwd = p.direction.name == 'PFFT_FORWARD'
                    f = p.flags.names
                    C.rep.count('plans', 1)
                    nm = 'plan %s %s %s' % (p.direction.name, 'in place' if p.inplace else 'out of place', 'T' if p.partition.T else 'U')
                    C.require(nm + ': type', p.type.name == DT[dt][0 if fwd else 1], 'the type is %s' % p.type.name, e.site)
                    C.require(nm + ': transposition', (('PFFT_TRANSPOSED_OUT' if fwd else 'PFFT_TRANSPOSED_IN') in f) == p.partition.T and
                              (('PFFT_TRANSPOSED_IN' if fwd else 'PFFT_TRANSPOSED_OUT') not in f), 'the flags %s do not match the partition' % p.flags, e.site)
                    pad = {'PFFT_PADDED_R2C', 'PFFT_PADDED_C2R'}
                    C.require(nm + ': padding', (pad & f == pad & p.partition.flags.names) and (('PFFT_PRESERVE_INPUT' in f) == padded) and (('PFFT_DESTROY_INPUT' in f) == (not padded)),
                              'the padding flags of the plan %s differ from those of its partition %s' % (p.flags, p.partition.flags), e.site)
            C.scen('plans %s %s' % (dt, padded), go)
    # views of the fields
    for dt, padded, size, ndim in geometries(C):
        for n in ('R', 'T', 'U'):
            def go():
                E = C.env(dtype=dt, padded=padded, size=size, ndim=ndim)
                f = E.field(n)
                v = f.attrs['value']
                m = f.attrs['_base'].mem
                k = ('i',) if n == 'R' else ('o', n == 'T')
                C.require('the array is a view of the buffer with the layout of the type', k in m.views and np.shares_memory(v.data, m.views[k].data) if isinstance(v, P.Arr) else None,
                          'the values of a %s are not the %s view of its buffer' % (f.cls.name, 'input' if n == 'R' else 'output'))
                tag = 'istart' if n == 'R' else 'ostart' + n
                C.samearr('start', f.attrs['start'], [V.var('%s%d' % (tag, d), local=True, isint=True, lo=Fraction(0)) for d in range(ndim)])
                half = E.I.binop('+', E.I.binop('//', E.Nm[ndim - 1], 2), 1)
                C.samearr('global shape', f.attrs['cshape'], [half if d == ndim - 1 and n != 'R' and dt[0] == 'f' else E.Nm[d] for d in range(ndim)])
            C.scen('field %s %s %s %dd %d' % (n, dt, padded, ndim, size), go)


def prodinv(E, sign):
    r = 1
    for n in E.Nm: r = E.I.binop('*', r, n if sign > 0 else E.I.binop('/', 1, n))
    return r


def dftvalue(E, e, j):
    p = e.args['plan']
    key = E.I.new(e.args['src'].copy())
    cplx = p.direction.name == 'PFFT_FORWARD' or p.partition.c2c
    return M.complexatom('dft', p.akey(), key, list(j)) if cplx else V.u('dft', p.akey(), key, list(j))


def check_norm(C, E, r, factor, what):
    ev = E.events('execute')
    if len(ev) != 1 or ev[0].guard != V.ALG.dd.T:
        C.rep.undec('%s: %d plan executions' % (C.name, len(ev)))
        return
    e = ev[0]
    v = E.value(r)
    want = np.empty(v.shape, dtype=object)
    for j in np.ndindex(*v.shape): want[j] = E.I.binop('*', dftvalue(E, e, j), factor)
    C.samearr(what, v, want, e.site)


def check_P02(C, E, which, a, av, o, out, r, padded):
    check_norm(C, E, r, prodinv(E, -1) if which == 'r2c' else 1, 'normalization of ' + which)


def P02(C):
    C.rep.rule('The values of the result of every transform are compared, as normal forms, with the raw output of the executed plan times 1/prod(Nmesh) for the forward and 1 for the '
               'backward transform; the gradient operators with the raw output of the opposite transform times 1 (gradient of c2r) and 1/prod(Nmesh) (gradient of r2c); '
               'decompress_vjp with the doubling of the modes which are not their own conjugates.')
    transforms(C, check_P02)
    for dt, padded, size, ndim in geometries(C):
        tag = '%s %s %dd %d ranks' % (dt, 'padded' if padded else 'non-padded', ndim, size)
        for out in (None, 'T', 'U', 'Ellipsis'):
            def go():
                E = C.env(dtype=dt, padded=padded, size=size, ndim=ndim)
                a = E.field('R', 'a')
                o = Ellipsis if out == 'Ellipsis' else E.field(out, 'o') if out else None
                E.mark()
                r = E.method(a, 'c2r_vjp', *([] if out is None else [o]))
                check_norm(C, E, r, 1, 'gradient of c2r')
            C.scen('c2r_vjp(out=%s) %s' % (out, tag), go)
        for src in ('T', 'U'):
            for out in (None, 'R', 'Ellipsis'):
                def go():
                    E = C.env(dtype=dt, padded=padded, size=size, ndim=ndim)
                    a = E.field(src, 'a')
                    o = Ellipsis if out == 'Ellipsis' else E.field(out, 'o') if out else None
                    E.mark()
                    r = E.method(a, 'r2c_vjp', *([] if out is None else [o]))
                    check_norm(C, E, r, prodinv(E, -1), 'gradient of r2c')
                C.scen('r2c_vjp of %s (out=%s) %s' % (src, out, tag), go)
            for out in (None, 'sep', 'Ellipsis'):
                def go():
                    E = C.env(dtype=dt, padded=padded, size=size, ndim=ndim)
                    a = E.field(src, 'a')
                    av = E.value(a).copy()
                    o = Ellipsis if out == 'Ellipsis' else E.field(src, 'o') if out else None
                    r = E.method(a, 'decompress_vjp', *([] if out is None else [o]))
                    v = E.value(r)
                    want = np.empty(v.shape, dtype=object)
                    for j in np.ndindex(*v.shape):
                        selfc = V.ALG.dd.T
                        for d in range(ndim):
                            i = E.I.binop('+', V.var('ostart%s%d' % (src, d), local=True, isint=True, lo=Fraction(0)), j[d])
                            c = V.cmp('==', V.binop('%', V.binop('-', E.Nm[d], i), E.Nm[d]), i)
                            selfc = V.ALG.dd.AND(selfc, V.truth(c))
                        want[j] = V.ite(selfc, av[j], V.binop('*', av[j], 2))
                    C.samearr('weights of the modes', v, want)
                C.scen('decompress_vjp of %s (out=%s) %s' % (src, out, tag), go)


# ------------------------------------------------------------------ P07 : coordinates

def gstart(n, d, tag=''):
    return V.var('%s%s%d' % (tag, 'istart' if n == 'R' else 'ostart' + n, d), local=True, isint=True, lo=Fraction(0))


def gindex(E, n, d, j):
    return V.binop('+', gstart(n, d), int(j))


def folded(E, n, d, j):
    i = gindex(E, n, d, j)
    N_ = E.Nm[d]
    c = V.cmp('>=', i, V.binop('//', V.binop('+', N_, 1), 2))
    return V.binop('-', i, V.ite(V.truth(c), N_, 0))


def coord(E, n, d, j):
    f = folded(E, n, d, j)
    if n == 'R': return V.binop('/', V.binop('*', f, E.L[d]), E.Nm[d])
    return V.binop('/', V.binop('*', V.binop('*', f, 2), N.PI()), E.L[d])


def circular(E, n, d, j):
    return V.binop('/', V.binop('*', coord(E, n, d, j), E.L[d]), E.Nm[d])


def marker(name):
    """an arbitrary function of coordinates and values"""
    def f(I, x, y):
        xs = I.iterate(x)
        I.event('func', x=x, y=y)
        return I.ufunc(lambda *a: V.u(name, *a), *(list(xs) + [y]))
    return P.Native(f, name)


def tableof(E, n, fn, d, shape):
    sh = [1] * E.ndim
    sh[d] = shape[d]
    w = np.empty(sh, dtype=object)
    for k in range(shape[d]): w.reshape(-1)[k] = fn(E, n, d, k)
    return w


def P07(C):
    C.rep.rule('The coordinate and index arrays of every type of field are compared, as normal forms in the symbolic mesh sizes, box sizes and local starts, with start + local index, '
               'folded at half of the mesh and scaled; apply is interpreted with an arbitrary function f and the result compared with f of the coordinates of each cell and the value '
               'of that cell, for all kinds, layouts and output arguments. The slabs of a field are iterated likewise, each with its own coordinates.')
    # more than one cell along each axis, so that slabs are told apart
    shapes = dict(ishape=(2, 3, 2), oshapeT=(3, 2, 2), oshapeU=(2, 2, 3))
    for dt, padded, size, ndim in geometries(C):
        tag = '%s %s %dd %d ranks' % (dt, 'padded' if padded else 'non-padded', ndim, size)
        for n in ('R', 'T', 'U'):
            def go():
                E = C.env(dtype=dt, padded=padded, size=size, ndim=ndim, penv=shapes)
                f = E.field(n)
                sh = layout(E, n)
                for d in range(ndim):
                    C.samearr('x[%d]' % d, f.attrs['x'][d], tableof(E, n, coord, d, sh))
                    C.samearr('i[%d]' % d, f.attrs['i'][d], tableof(E, n, gindex, d, sh))
                sl = f.attrs['slices']
                for d in range(ndim):
                    C.same('slices[%d].start' % d, sl[d].start, gstart(n, d))
                    C.same('slices[%d].stop' % d, sl[d].stop, gindex(E, n, d, sh[d]))
                # fresh coordinates must not be shared between fields
                g = E.field(n)
                C.require('coordinates are not shared', not any(np.shares_memory(p.data, q.data) for p, q in zip(f.attrs['x'] + f.attrs['i'], g.attrs['x'] + g.attrs['i'])),
                          'two fields share their coordinate arrays')
            C.scen('coordinates of %s %s' % (n, tag), go)
            kinds = ['relative', 'index'] if n == 'R' else ['wavenumber', 'circular', 'index']
            for kind in kinds + ['default']:
                for out in (None, 'Ellipsis', 'field', 'array'):
                    if out in ('field', 'array') and (dt, ndim, size) != ('f8', 3, 3) and not C.thorough: continue

                    def go():
                        E = C.env(dtype=dt, padded=padded, size=size, ndim=ndim, penv=shapes)
                        a = E.field(n, 'a')
                        av = E.value(a).copy()
                        o = None
                        if out == 'Ellipsis': o = Ellipsis
                        elif out == 'field': o = E.field(n, 'o')
                        elif out == 'array':
                            o = E.I.new(np.empty(av.shape, dtype=object), a.attrs['value'].dtype)
                            M.fillsrc(o, 'oa')
                        kw = {}
                        if kind != 'default': kw['kind'] = kind
                        if out: kw['out'] = o
                        r = E.method(a, 'apply', marker('f'), **kw)
                        rv = E.value(r) if isinstance(r, P.Inst) else r.data
                        fn = {'relative': coord, 'wavenumber': coord, 'index': gindex, 'circular': circular, 'default': coord}[kind]
                        want = np.empty(av.shape, dtype=object)
                        for j in np.ndindex(*av.shape):
                            want[j] = V.u('f', *([fn(E, n, d, j[d]) for d in range(ndim)] + [av[j]]))
                            want[j] = P.castto(a.attrs['value'].dtype, want[j])
                        C.samearr('value of every cell', rv, want)
                        if out is None: C.samearr('the field itself is unchanged', E.value(a), av)
                        C.require('result object', r is (o if out in ('field', 'array') else a if out == 'Ellipsis' else r), 'apply returns another object than its output')
                    C.scen('apply(%s, out=%s) of %s %s' % (kind, out, n, tag), go)
            for zm in (None, 1):
                def go():
                    E = C.env(dtype=dt, padded=padded, size=size, ndim=ndim, penv=shapes)
                    a = E.field(n, 'a')

                    def f(I, x, y):
                        kk = I.call(I.getattr(x, 'normp'), [], dict(p=2, zeromode=zm))
                        return I.ufunc(lambda p, q: V.u('g', p, q), kk, y)
                    av = E.value(a).copy()
                    r = E.method(a, 'apply', P.Native(f, 'g'))
                    want = np.empty(av.shape, dtype=object)
                    for j in np.ndindex(*av.shape):
                        s = 0
                        for d in range(ndim):
                            x = coord(E, n, d, j[d])
                            s = V.binop('+', s, V.binop('*', x, x))
                        if zm is not None: s = V.ite(V.truth(V.cmp('==', s, 0)), zm, s)
                        want[j] = P.castto(a.attrs['value'].dtype, V.u('g', s, av[j]))
                    C.samearr('normp', E.value(r), want)
                if dt[0] == 'f': C.scen('normp(zeromode=%s) of %s %s' % (zm, n, tag), go)
            for how in ('slabs', 'slabs.x and slabs.i'):
                def go():
                    E = C.env(dtype=dt, padded=padded, size=size, ndim=ndim, penv=shapes)
                    a = E.field(n, 'a')
                    av = E.value(a).copy()
                    I = E.I
                    it = I.getattr(a, 'slabs')
                    sl = list(I.iterate(it))
                    if how == 'slabs': co = [(I.getattr(s, 'x'), I.getattr(s, 'i'), s) for s in sl]
                    else: co = list(zip(I.iterate(I.getattr(it, 'x')), I.iterate(I.getattr(it, 'i')), sl))
                    if how == 'slabs':
                        for s in sl:
                            for d in range(ndim):
                                C.same('mesh size of the slab', I.getitem(I.getattr(s, 'Nmesh'), d), E.Nm[d])
                                C.same('box size of the slab', I.getitem(I.getattr(s, 'BoxSize'), d), E.L[d])
                    for x, i, s in co:
                        xs = list(I.iterate(x)) + list(I.iterate(i))
                        I.setitem(s, Ellipsis, I.ufunc(lambda *v: V.u('f', *v), *(xs + [s])))
                    want = np.empty(av.shape, dtype=object)
                    for j in np.ndindex(*av.shape):
                        want[j] = P.castto(a.attrs['value'].dtype, V.u('f', *([coord(E, n, d, j[d]) for d in range(ndim)] + [gindex(E, n, d, j[d]) for d in range(ndim)] + [av[j]])))
                    C.samearr('every cell is visited once, with its coordinates and indices', E.value(a), want)
                C.scen('%s of %s %s' % (how, n, tag), go)
    # the grid of the mesh points
    for ndim in (3, 2):
        for shift in ('sym', 0):
            def go():
                E = C.env(ndim=ndim)
                sh = V.var('shift') if shift == 'sym' else 0
                q, ids = E.method(E.pm, 'generate_uniform_particle_grid', shift=sh, return_id=True)
                shp = layout(E, 'R')
                cells = list(np.ndindex(*shp))
                want = np.empty((len(cells), ndim), dtype=object)
                wid = np.empty(len(cells), dtype=object)
                for k, j in enumerate(cells):
                    idv = 0
                    for d in range(ndim):
                        g = gindex(E, 'R', d, j[d])
                        want[k, d] = V.binop('/', V.binop('*', V.binop('+', g, sh), E.L[d]), E.Nm[d])
                        idv = V.binop('+', V.binop('*', idv, E.Nm[d]), g)
                    wid[k] = idv
                C.samearr('positions of the mesh points', q, want)
                C.samearr('identifiers of the mesh points', ids, wid)
            C.scen('generate_uniform_particle_grid %dd shift %s' % (ndim, shift), go)


CHECKS = {'P01': P01, 'P02': P02, 'P07': P07}


def main(pid, tier):
    import pychecks2, pychecks3, pychecks4, pychecks5, pychecks6, pychecks7, pychecks8, pychecks9, pychecks10, cchecks
    CHECKS.update(pychecks2.CHECKS)
    CHECKS.update(pychecks3.CHECKS)
    CHECKS.update(pychecks4.CHECKS)
    CHECKS.update(pychecks5.CHECKS)
    CHECKS.update(pychecks6.CHECKS)
    CHECKS.update(pychecks7.CHECKS)
    CHECKS.update(pychecks8.CHECKS)
    CHECKS.update(pychecks9.CHECKS)
    CHECKS.update(pychecks10.CHECKS)
    CHECKS.update(cchecks.CHECKS)
    C = Ctx(pid, tier)
    CHECKS[pid](C)
    C.rep.count('functions', len(C.funcs))
    return C.rep.finish()
