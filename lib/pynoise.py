"""White noise in the Python layer: the model of the generator and of numpy.random"""
from fractions import Fraction

import numpy as np

import pyval as V
from pyval import S, Gate, Unknown, Unsupported, isnum, num
import pyflow as P
import pynumpy as N
import pymodel as M
from pychecks import fieldclass, layout, gstart, gindex, folded, at, short, chk_execute


@M.bi('pmesh_whitenoise_generator_init')
def c_init(I, st):
    if isinstance(st, P.Struct): I.event('noise.init', s=M.snap(st))


@M.bi('pmesh_whitenoise_generator_fill')
def c_fill(I, st):
    """every mode of the canvas becomes a function of the seed, the mesh and the index of the mode"""
    a = st.attrs
    arr = getattr(a.get('canvas'), 'arr', None)
    if arr is None: raise Unsupported('canvas of the white noise')
    s = M.snap(st)
    I.event('noise', s=s, arr=arr, shape=arr.data.shape)
    vec = lambda n: [I.resolve(a[n].get(d)) for d in range(arr.ndim)]
    start, Nm = vec('start'), vec('Nmesh')
    seed, uni = I.resolve(a['seed']), I.resolve(a['unitary'])
    d = np.empty(arr.data.shape, dtype=object)
    for j in np.ndindex(*d.shape): d[j] = noise(seed, uni, Nm, [V.binop('+', x, k) for x, k in zip(start, j)])
    N.arr_setitem(I, arr, Ellipsis, P.Arr(d, arr.dtype))


def noise(seed, uni, Nm, idx):
    dd = V.ALG.dd
    zero = dd.T
    for x in idx: zero = dd.AND(zero, V.truth(V.cmp('==', x, 0)))
    f = lambda u: V.ite(zero, 0, M.complexatom('whitenoise', seed, u, list(Nm), list(idx)))
    if isinstance(uni, (bool, np.bool_)): uni = int(uni)
    if isnum(uni) and not isinstance(uni, S): return f(int(uni))
    return V.ite(V.truth(uni), f(1), f(0))


class Whole(P.Stub):
    """an array over the whole mesh: a factor times a function of the index"""
    def __init__(self, fn, factor, shape, kind):
        self.fn, self.factor, self.shape, self.kind = fn, factor, shape, kind
        self.a_shape = tuple(shape)
        self.a_ndim = len(shape)

    def el(self, idx): return V.binop('*', self.factor, self.fn(idx))

    def getitem(self, I, i):
        if i is Ellipsis or i == slice(None): return self
        if not isinstance(i, tuple) or len(i) != len(self.shape): return I.unknown('index of the whole mesh')
        st, ns = [], []
        for s in i:
            s = I.resolve(s)
            if not isinstance(s, slice) or s.step not in (None, 1): return I.unknown('index of the whole mesh')
            a = 0 if s.start is None else s.start
            n = N.conc_int(I.binop('-', s.stop, a)) if s.stop is not None else None
            if n is None or n < 0: return I.unknown('extent of a part of the whole mesh')
            st.append(a)
            ns.append(n)
        d = np.empty(ns, dtype=object)
        for j in np.ndindex(*d.shape): d[j] = self.el([V.binop('+', a, k) for a, k in zip(st, j)])
        I.event('whole.slice', start=st, shape=ns)
        return I.new(d, 'c16' if self.kind == 'c' else 'f8')

    def setitem(self, I, i, v):
        v = I.resolve(v)
        if i is Ellipsis and isinstance(v, Whole): self.fn, self.factor, self.kind = v.fn, v.factor, v.kind
        else: raise Unsupported('store into the whole mesh')

    def binop(self, I, op, a, b):
        if op == '*':
            x, y = (a, b) if isinstance(a, Whole) else (b, a)
            y = I.resolve(y)
            if isnum(y): return Whole(x.fn, V.binop('*', x.factor, y), x.shape, x.kind)
        if op == '/' and isinstance(a, Whole) and isnum(I.resolve(b)): return Whole(a.fn, V.binop('/', a.factor, I.resolve(b)), a.shape, a.kind)
        return I.unknown('operator %s on the whole mesh' % op)


class RNG(P.Stub):
    def __init__(self, seed):
        self.seed, self.n = seed, 0

    def m_normal(self, I, loc=0, scale=1, size=None):
        if I.resolve(loc) != 0 or I.resolve(scale) != 1: return I.unknown('normal')
        return self.m_standard_normal(I, size)

    def m_standard_normal(self, I, size=None):
        sh = [I.resolve(x) for x in I.iterate(size)]
        if not all(isnum(x) for x in sh) or not isnum(self.seed): return I.unknown('normal')
        self.n += 1
        n = self.n
        key = [self.seed, n, list(sh)]
        I.event('whole.normal', shape=sh, seed=self.seed)
        return Whole(lambda idx: V.u('normal', *(key + [list(idx)])), 1, sh, 'f')


class Random(P.Stub):
    def m_RandomState(self, I, seed=None): return RNG(I.resolve(seed))


class FFT(P.Stub):
    def m_fftn(self, I, a, *x, **k):
        a = I.resolve(a)
        if not isinstance(a, Whole) or x or k: return I.unknown('fftn')
        key = a.fn([V.var('fft%d' % d) for d in range(len(a.shape))])
        return Whole(lambda idx: M.complexatom('fftn', key, list(a.shape), list(idx)), a.factor, a.shape, 'c')


def env(C, **k):
    E = C.env(**k)
    np_ = E.I.module('pmesh.whitenoise').env['numpy']
    np_.extra = dict(np_.extra, random=Random(), fft=FFT())
    return E


def expected(E, n, j, seed, uni, mean, nd):
    """the value of a mode"""
    idx = [gindex(E, n, d, j[d]) for d in range(nd)]
    if nd == 3: v = noise(seed, uni, E.Nm, idx)
    else:
        k = V.u('normal', seed, 1, list(E.Nm), [V.var('fft%d' % d) for d in range(nd)])
        v = M.complexatom('fftn', k, list(E.Nm), idx)
        pr = 1
        for x in E.Nm: pr = V.binop('*', pr, x)
        v = E.I.binop('*', v, E.I.binop('**', pr, -0.5))
        if uni:
            np_ = E.m['numpy']
            a = E.I.call(np_.attr(E.I, 'angle'), [E.I.asarr([v])], {})
            a = E.I.binop('*', a, 1j)
            v = E.I.call(np_.attr(E.I, 'exp'), [a], {}).data[0]
    g = V.ALG.dd.T
    for d in range(nd): g = V.ALG.dd.AND(g, V.truth(V.cmp('==', folded(E, n, d, j[d]), 0)))
    return V.ite(g, mean, v)


def pyhalf(C, pid):
    for nd in (3, 2):
        for dt in ('f8', 'f4', 'c16', 'c8'):
            for size in (3, 1):
                for ty in ('R', 'T', 'U'):
                    for uni in (None, True, False):
                        for mn in (None, 'mean'):
                            for pos in ((False,) if nd == 2 or ty == 'R' else (False, True)):
                                def go():
                                    E = env(C, ndim=nd, dtype=dt, size=size)
                                    kw = dict(type=E.cls(ty))
                                    if uni is not None: kw['unitary'] = uni
                                    mean = 0
                                    if mn:
                                        mean = V.var('mean')
                                        kw['mean'] = mean
                                    seed = V.var('seed', isint=True, lo=Fraction(0))
                                    if pos: seed = 42
                                    E.mark()
                                    r = E.method(E.pm, 'generate_whitenoise', seed, **kw)
                                    verdicts(C, pid, E, r, ty, seed, bool(uni), mean, nd, dt)
                                C.scen('generate_whitenoise(%s%s%s) %s %dd %d ranks%s' % (ty, '' if uni is None else ', unitary=%s' % uni, ', mean' if mn else '', dt, nd, size, ', literal seed' if pos else ''), go)
    if pid != 'N01': return
    # the types are accepted by name as well
    for name, n in (('real', 'R'), ('complex', 'T'), ('transposedcomplex', 'T'), ('untransposedcomplex', 'U')):
        def go():
            E = env(C)
            E.mark()
            r = E.method(E.pm, 'generate_whitenoise', 7, type=name)
            verdicts(C, pid, E, r, n, 7, False, 0, 3, 'f8')
        C.scen('generate_whitenoise(%s)' % name, go)


def verdicts(C, pid, E, r, ty, seed, uni, mean, nd, dt):
    I = E.I
    n = 'U' if ty == 'R' else ty
    sh = layout(E, n)
    want = np.empty(sh, dtype=object)
    for j in np.ndindex(*sh): want[j] = expected(E, n, j, seed, uni, mean, nd)
    C.require('type of the result', fieldclass(E, r) == ty, 'the result is a %s' % (r.cls.name if isinstance(r, P.Inst) else r))
    if pid == 'N01' and nd == 3:
        ev = E.events('noise')
        if len(ev) != 1:
            C.rep.undec('%s: %d calls of the generator' % (C.name, len(ev)))
            return
        e = ev[0]
        s, arr = e.args['s'], e.args['arr']
        C.rep.count('calls of the generator', 1)
        C.require('number of dimensions', I.resolve(s['ndim']) == 3, 'the generator is told %s dimensions' % s['ndim'], e.site)
        C.require('size of an element', I.resolve(s['canvas_dtype_elsize']) == arr.dtype.itemsize, 'the generator is told elements of %s bytes for %s' % (s['canvas_dtype_elsize'], arr.dtype), e.site)
        st = [k // 8 * arr.dtype.itemsize for k in arr.data.strides]
        for d in range(3):
            C.same('Nmesh[%d]' % d, I.resolve(s['Nmesh'].get(d)), E.Nm[d], e.site)
            C.same('start[%d]' % d, I.resolve(s['start'].get(d)), gstart(n, d), e.site)
            C.same('size[%d]' % d, I.resolve(s['size'].get(d)), arr.data.shape[d], e.site)
            if arr.data.shape[d] > 1: C.same('strides[%d]' % d, I.resolve(s['strides'].get(d)), st[d], e.site)
    if ty == 'R':
        ev = E.events('execute')
        if len(ev) != 1 or ev[0].guard != V.ALG.dd.T:
            C.rep.undec('%s: %d plan executions' % (C.name, len(ev)))
            return
        C.samearr('modes which are transformed', ev[0].args['src'], want, ev[0].site)
        return
    C.samearr('value of the modes', E.value(r), want)
