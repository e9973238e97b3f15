"""Painting and readout: options, routes, gradient operators, ghost zones, resampling"""
from fractions import Fraction
import itertools

import numpy as np

import pyval as V
from pyval import S, B, Gate, Unknown, Unsupported, isnum, num, mk, mkb
import pyflow as P
import pynumpy as N
import pymodel as M
from pychecks import (geometries, layout, fieldclass, gstart, gindex, folded, coord, circular, marker, tableof, short, at)

HOOKS = {'GridND.decompose': M.h_decompose}


class Op(object):
    """what one painting or readout should do"""
    def __init__(self, E, win, tr, order):
        st = win.attrs['painter']
        if isinstance(st, (list, tuple, dict)): st = st[0]
        a = st.attrs
        self.I = E.I
        self.k = [V.akey(E.I.resolve(a['type'])), E.I.resolve(a['support']), tuple(order), tuple(tr[0]), tuple(tr[1]), tuple(tr[2])]

    def weight(self, x, h, j):
        return V.u('local:paint', *(M.opargs(self.k, x) + [h, list(j)]))

    def value(self, x, h, arr):
        return V.u('local:readout', *(M.opargs(self.k, x) + [h, arr]))


def windows(E): return E.I.module('pmesh.window').env['windows']


def window(E, which, pm=None):
    """(argument, window object); None stands for the default of the mesh"""
    w = windows(E)
    if which is None:
        r = (pm or E.pm).attrs['resampler']
        return None, (w[r] if isinstance(r, str) else r)
    if which.startswith('obj:'): return w[which[4:]], w[which[4:]]
    if which.startswith('resized:'):
        o = E.method(w[which[8:]], 'resize', 7)
        return o, o
    return which, w[which]


def affine(E, given, pre='', pm=None, n='R'):
    """(argument, (scale, translate, period))"""
    nd = E.ndim
    if not given:
        Nm, L = (E.Nm, E.L) if pm is None else pm
        return None, ([V.binop('/', Nm[d], L[d]) for d in range(nd)], [V.binop('*', -1, gstart(n, d, pre)) for d in range(nd)], list(Nm))
    sc = [V.var('scale%d' % d) for d in range(nd)]
    tr = [V.var('translate%d' % d, local=True) for d in range(nd)]
    pe = [V.var('period%d' % d, isint=True, lo=Fraction(0)) for d in range(nd)]
    A = E.I.module('pmesh.window').env['Affine']
    o = E.I.call(A, [nd], dict(scale=E.I.asarr(list(sc)), translate=E.I.asarr(list(tr)), period=E.I.asarr(list(pe))))
    return o, (sc, tr, pe)


def order(E, g):
    return [1 if g is not None and d == (g % E.ndim) else 0 for d in range(E.ndim)]


def content(arr):
    """key of the contents read by a readout"""
    a = P.Arr(arr.data.copy(), arr.dtype)
    if a.dtype.kind == 'c': return ('x', 'part', '0', V.akey(a))
    return V.akey(a)


def rows(arr): return arr.data.copy()


class Parts(object):
    """particle data of a scenario"""
    def __init__(self, E, lay=None):
        self.E, self.lay = E, lay
        self.kept = []

    def arr(self, name, ncol=None, dtype='f8'):
        a = self.E.particles(name, ncol, dtype)
        self.kept.append((name, a, a.data.copy()))
        return a

    def scalar(self, name):
        return V.var(name)

    def send(self, e): return self.lay.send(e) if self.lay is not None else e

    def back(self, e): return self.lay.collect('gather', e) if self.lay is not None else e

    def field(self, n, name, pm=None):
        f = self.E.field(n, name, pm=pm)
        self.kept.append((name, f.attrs['value'], self.E.value(f).copy()))
        return f

    def unchanged(self, C, but=()):
        for name, a, old in self.kept:
            if name in but: continue
            C.samearr('input %s is unchanged' % name, a.data, old)


def datum(kind, Q, name, default=None):
    """(keyword value or absent, value used for the generic particle)"""
    if kind is None: return False, default
    if kind == 'array':
        a = Q.arr(name)
        return a, Q.send(a.data[0])
    if kind == 'array4':
        a = Q.arr(name, dtype='f4')
        return a, Q.send(a.data[0])
    s = Q.scalar(name)
    return s, s


def noarg(x): return x is False


def paintcase(C, o):
    """one call of a painting function; o: options"""
    E = C.env(dtype=o.get('dtype', 'f8'), ndim=o.get('ndim', 3), size=o.get('size', 3), resampler=o.get('pmres'), hooks=HOOKS)
    nd = E.ndim
    lay = M.LayoutStub() if o.get('layout') else None
    Q = Parts(E, lay)
    pos = Q.arr('x', nd, o.get('pdt', 'f8'))
    mass, m = datum(o.get('mass'), Q, 'm', 1)
    hsml, h = datum(o.get('hsml'), Q, 'h', 1)
    warg, win = window(E, o.get('res'))
    targ, tr = affine(E, o.get('tr'))
    g = o.get('gradient')
    kw = {}
    if not noarg(mass): kw['mass'] = mass
    if not noarg(hsml): kw['hsml'] = hsml
    if warg is not None: kw['resampler'] = warg
    if targ is not None: kw['transform'] = targ
    if g is not None: kw['gradient'] = g
    if lay is not None: kw['layout'] = lay
    if 'hold' in o: kw['hold'] = o['hold']
    out = None
    if o.get('out') or o.get('deprecated'):
        out = E.field('R', 'o')
        old = E.value(out).copy()
    if o.get('deprecated'):
        E.method(out, 'paint', pos, **kw)
        r = out
    else:
        if out is not None: kw['out'] = out
        r = E.method(E.pm, 'paint', pos, **kw)
        if out is not None: C.require('the output is returned', r is out, 'another field than the output is returned')
    v = E.value(r)
    op = Op(E, win, tr, order(E, g))
    x = [Q.send(pos.data[0, d]) for d in range(nd)]
    want = np.empty(v.shape, dtype=object)
    # without an output, hold has nothing to keep but the contents of new memory
    hold = o.get('hold') and out is not None
    if o.get('hold') and out is None:
        want = None
    else:
        for j in np.ndindex(*v.shape):
            t = V.binop('*', op.weight(x, h, j), m)
            if hold:
                t = V.binop('+', t, old[j])
            want[j] = t
        C.samearr('the mesh', v, want)
    Q.unchanged(C)


def readoutcase(C, o):
    E = C.env(dtype=o.get('dtype', 'f8'), ndim=o.get('ndim', 3), size=o.get('size', 3), resampler=o.get('pmres'), hooks=HOOKS)
    nd = E.ndim
    lay = M.LayoutStub() if o.get('layout') else None
    Q = Parts(E, lay)
    pos = Q.arr('x', nd, o.get('pdt', 'f8'))
    f = Q.field('R', 'a')
    hsml, h = datum(o.get('hsml'), Q, 'h', 1)
    warg, win = window(E, o.get('res'))
    targ, tr = affine(E, o.get('tr'))
    g = o.get('gradient')
    kw = {}
    if not noarg(hsml): kw['hsml'] = hsml
    if warg is not None: kw['resampler'] = warg
    if targ is not None: kw['transform'] = targ
    if g is not None: kw['gradient'] = g
    if lay is not None: kw['layout'] = lay
    key = content(f.attrs['value'])
    if o.get('out'): kw['out'] = out = E.particles('o')
    r = E.method(f, 'readout', pos, **kw)
    op = Op(E, win, tr, order(E, g))
    x = [Q.send(pos.data[0, d]) for d in range(nd)]
    want = Q.back(op.value(x, h, key))
    if o.get('out'): C.same('the output', out.data[0], want)
    if isinstance(r, P.Arr):
        C.require('one value per particle', r.data.shape == (1,), 'has the shape %s' % (r.data.shape,))
        if C.rep.pid == 'P05' and not o.get('out'): C.require('precision of the values', r.dtype == np.dtype('f8'), 'is %s instead of double' % r.dtype)
        C.same('the values', r.data[0], want)
    else: C.rep.undec('%s: result is %r' % (C.name, r))
    Q.unchanged(C)


def label(o): return ', '.join('%s=%s' % (k, o[k]) for k in sorted(o))


def combos(axes, full):
    """all pairs of choices (quick) or all combinations (thorough); the first choice of each axis is the default"""
    names = list(axes)
    if full:
        for c in itertools.product(*[axes[n] for n in names]):
            yield {n: v for n, v in zip(names, c) if v is not None}
        return
    seen = set()
    base = {n: axes[n][0] for n in names}
    for a, b in itertools.combinations(names, 2):
        for va in axes[a]:
            for vb in axes[b]:
                for fill in (0, -1):
                    o = {n: axes[n][fill] for n in names}
                    o[a], o[b] = va, vb
                    k = tuple(sorted((n, str(v)) for n, v in o.items()))
                    if k in seen: continue
                    seen.add(k)
                    yield {n: v for n, v in o.items() if v is not None}


def P05(C):
    C.rep.rule('pm.paint, RealField.paint and RealField.readout are interpreted with combinations of given and omitted options; the mesh or the values after the call are compared, as normal forms, with '
               'the effect of the C painter called for the generic particle with the window, support, order, scale, translation, period, position, mass and smoothing length the options ask for, '
               'defaults being those of the mesh.')
    ax = dict(mass=[None, 'array', 'scalar'], hsml=[None, 'array', 'scalar'], res=[None, 'tsc', 'NNB', 'obj:pcs', 'resized:linear'], tr=[None, 1], gradient=[None, 0, 2], layout=[None, 1],
              hold=[None, True, False], out=[None, 1], pmres=[None, 'tsc'])
    if not C.thorough: ax['res'] = [None, 'tsc', 'obj:pcs', 'resized:linear']
    for o in combos(ax, C.thorough):
        C.scen('paint(%s)' % label(o), lambda: paintcase(C, o))
    for o in combos(dict(mass=[None, 'array'], res=[None, 'tsc'], tr=[None, 1], gradient=[None, 1], layout=[None, 1], hold=[None, True, False]), C.thorough):
        o = dict(o, deprecated=1)
        C.scen('RealField.paint(%s)' % label(o), lambda: paintcase(C, o))
    ax = dict(hsml=[None, 'array', 'scalar'], res=[None, 'tsc', 'obj:pcs', 'resized:linear'], tr=[None, 1], gradient=[None, 0, 2], layout=[None, 1], out=[None, 1], pmres=[None, 'tsc'])
    for o in combos(ax, C.thorough):
        C.scen('readout(%s)' % label(o), lambda: readoutcase(C, o))
    ax = dict(mass=[None, 'array', 'scalar'], hsml=[None, 'array', 'scalar'], tr=[None, 1], gradient=[None, 0, 2], res=['obj:tsc', 'resized:linear'])
    for o in combos(ax, C.thorough):
        C.scen('ResampleWindow.paint(%s)' % label(o), lambda: windowcase(C, o, False))
    del ax['mass']
    for o in combos(dict(ax, out=[None, 1]), C.thorough):
        C.scen('ResampleWindow.readout(%s)' % label(o), lambda: windowcase(C, o, True))
    for dt in ('f4', 'c16', 'c8'):
        for nd in (2, 3):
            for lay in (None, 1):
                o = dict(dtype=dt, ndim=nd, layout=lay, mass='array', gradient=1, res='tsc')
                C.scen('paint(%s)' % label(o), lambda: paintcase(C, o))
                o = dict(dtype=dt, ndim=nd, layout=lay, hsml='array', gradient=1, res='tsc')
                C.scen('readout(%s)' % label(o), lambda: readoutcase(C, o))


def windowcase(C, o, read):
    """a window used directly on an array"""
    E = C.env(dtype=o.get('dtype', 'f8'), ndim=o.get('ndim', 3), hooks=HOOKS)
    nd = E.ndim
    Q = Parts(E)
    pos = Q.arr('x', nd)
    f = E.field('R', 'a')
    mesh = E.I.new(E.value(f).copy(), f.attrs['value'].dtype)
    old = mesh.data.copy()
    win = window(E, o.get('res', 'obj:tsc'))[0]
    targ, tr = affine(E, o.get('tr'))
    if targ is None: tr = ([1] * nd, [0] * nd, [0] * nd)
    g = o.get('gradient')
    kw = {}
    if not read:
        mass, m = datum(o.get('mass'), Q, 'm', 1)
        if not noarg(mass): kw['mass'] = mass
    hsml, h = datum(o.get('hsml'), Q, 'h', 1)
    if not noarg(hsml): kw['hsml'] = hsml
    if targ is not None: kw['transform'] = targ
    if g is not None: kw['diffdir'] = g
    op = Op(E, win, tr, order(E, g))
    x = list(pos.data[0])
    if read:
        key = content(mesh)
        if o.get('out'): kw['out'] = out = E.particles('o')
        r = E.method(win, 'readout', mesh, pos, **kw)
        want = op.value(x, h, key)
        if o.get('out'):
            C.require('the output is returned', r is out, 'another array than the output is returned')
            C.same('the output', out.data[0], want)
        if isinstance(r, P.Arr):
            C.require('one value per particle', r.data.shape == (1,), 'has the shape %s' % (r.data.shape,))
            if C.rep.pid == 'P05' and not o.get('out'): C.require('precision of the values', r.dtype == np.dtype('f8'), 'is %s instead of double' % r.dtype)
            C.same('the values', r.data[0], want)
        else: C.rep.undec('%s: result is %r' % (C.name, r))
        C.samearr('the mesh is unchanged', mesh.data, old)
    else:
        E.method(win, 'paint', mesh, pos, **kw)
        want = np.empty(old.shape, dtype=object)
        for j in np.ndindex(*old.shape): want[j] = V.binop('+', old[j], V.binop('*', op.weight(x, h, j), m))
        C.samearr('the mesh', mesh.data, want)
    Q.unchanged(C)


def P04(C):
    C.rep.rule('pm.paint and RealField.readout are interpreted with a layout: the positions, masses and smoothing lengths that reach the C painter must be those sent by the layout, a scalar must arrive as it is, '
               'and read out values must be those gathered by the same layout; without a layout nothing is routed.')
    for size in (1, 3):
        for nd in (2, 3):
            for dt in ('f8', 'c16'):
                for o in combos(dict(layout=[None, 1], mass=[None, 'array', 'scalar'], hsml=[None, 'array', 'scalar'], out=[None, 1], hold=[None, True]), True):
                    o = dict(o, size=size, ndim=nd, dtype=dt)
                    if not C.thorough and nd == 2 and dt == 'c16': continue
                    C.scen('paint(%s)' % label(o), lambda: paintcase(C, o))
                for o in combos(dict(layout=[None, 1], hsml=[None, 'array', 'scalar'], out=[None, 1], gradient=[None, 1]), True):
                    o = dict(o, size=size, ndim=nd, dtype=dt)
                    C.scen('readout(%s)' % label(o), lambda: readoutcase(C, o))


CHECKS = {'P05': P05, 'P04': P04}


# ------------------------------------------------------------------ P09 : gradient operators

class Case(object):
    """common set up of the gradient operators"""
    def __init__(self, C, o, n='R'):
        self.C = C
        self.E = E = C.env(dtype=o.get('dtype', 'f8'), ndim=o.get('ndim', 3), size=o.get('size', 3), resampler=o.get('pmres'), hooks=HOOKS)
        self.lay = M.LayoutStub() if o.get('layout') else None
        self.Q = Parts(E, self.lay)
        self.pos = self.Q.arr('x', E.ndim)
        self.kw = {}
        warg, self.win = window(E, o.get('res'))
        targ, self.tr = affine(E, o.get('tr'))
        self.g = o.get('gradient')
        if warg is not None: self.kw['resampler'] = warg
        if targ is not None: self.kw['transform'] = targ
        if self.g is not None: self.kw['gradient'] = self.g
        if self.lay is not None: self.kw['layout'] = self.lay
        self.x0 = self.pos.data[0].copy()
        self.x = [self.Q.send(e) for e in self.x0]

    def op(self, g): return Op(self.E, self.win, self.tr, order(self.E, g))

    def read(self, key, g): return self.Q.back(self.op(g).value(self.x, 1, key))

    def painted(self, shape, g, m, base=None):
        """m: mass on the rank of the particle"""
        w = np.empty(shape, dtype=object)
        for j in np.ndindex(*shape):
            w[j] = V.binop('*', self.op(g).weight(self.x, 1, j), self.Q.send(m))
            if base is not None: w[j] = V.binop('+', w[j], base[j])
        return w


def asrow(C, what, r, want, site=''):
    if not isinstance(r, P.Arr):
        C.rep.undec('%s: %s is %r' % (C.name, what, r))
        return
    w = np.empty((1,) + np.shape(want), dtype=object)
    w[0] = want
    C.samearr(what, r, w)


def P09(C):
    C.rep.rule('readout_vjp, readout_jvp, paint_vjp and paint_jvp are interpreted with symbolic particles, tangents and fields and every combination of options, layouts and outputs; the results are compared, as '
               'normal forms, with the sums over the axes of the gradient window along that axis times the matching component, mass or value, and with the plain window for the linear arguments.')
    opts = dict(res=[None, 'tsc'], tr=[None, 1], layout=[None, 1], pmres=[None, 'pcs'])
    for o in combos(opts, C.thorough):
        for nd in (3, 2):
            if nd == 2 and len(o) not in (0, 4) and not C.thorough: continue
            o = dict(o, ndim=nd)
            for vp in (None, 'given'):
                for vs in (None, 'given', 'self'):
                    for g in (None, 1):
                        if g is not None and vp is not None: continue
                        oo = dict(o)
                        if g is not None: oo['gradient'] = g

                        def go():
                            K = Case(C, oo)
                            E, Q = K.E, K.Q
                            a = Q.field('R', 'a')
                            kw = dict(K.kw)
                            ka = content(a.attrs['value'])
                            want = 0
                            if vp:
                                kw['v_pos'] = t = Q.arr('t', nd)
                                for d in range(nd): want = V.binop('+', want, V.binop('*', K.read(ka, d), t.data[0, d]))
                            if vs:
                                kw['v_self'] = b = a if vs == 'self' else Q.field('R', 'b')
                                want = V.binop('+', want, K.read(content(b.attrs['value']), g))
                            r = E.method(a, 'readout_jvp', K.pos, **kw)
                            asrow(C, 'result', r, want)
                            Q.unchanged(C)
                        C.scen('readout_jvp(v_pos=%s, v_self=%s, %s)' % (vp, vs, label(oo)), go)
            for vp in (None, 'given'):
                for vm in (None, 'array'):
                    for mass in (None, 'array', 'scalar'):
                        for out in (None, 'given'):
                            def go():
                                K = Case(C, o)
                                E, Q = K.E, K.Q
                                kw = dict(K.kw)
                                marg, m = datum(mass, Parts(E), 'm', 1)
                                if not noarg(marg): kw['mass'] = marg
                                if out: kw['out'] = fo = E.field('R', 'o')
                                sh = layout(E, 'R')
                                want = np.zeros(sh, dtype=object)
                                if vp:
                                    kw['v_pos'] = t = Q.arr('t', nd)
                                    for d in range(nd): want = K.painted(sh, d, V.binop('*', t.data[0, d], m), want)
                                if vm:
                                    kw['v_mass'] = tm = Q.arr('tm')
                                    want = K.painted(sh, None, tm.data[0], want)
                                r = E.method(E.pm, 'paint_jvp', K.pos, **kw)
                                if out: C.require('the output is returned', r is fo, 'another field than the output is returned')
                                C.samearr('result', E.value(r), want)
                                Q.unchanged(C)
                            C.scen('paint_jvp(v_pos=%s, v_mass=%s, mass=%s, out=%s, %s)' % (vp, vm, mass, out, label(o)), go)
            for op_ in (None, False, 'array', 'Ellipsis', 'pos'):
                for os_ in (None, False, 'field', 'Ellipsis', 'self'):
                    for g in (None, 1):
                        if g is not None and op_ is not False: continue
                        oo = dict(o)
                        if g is not None: oo['gradient'] = g

                        def go():
                            K = Case(C, oo)
                            E, Q = K.E, K.Q
                            a = Q.field('R', 'a')
                            v = Q.arr('v')
                            ka = content(a.attrs['value'])
                            kw = dict(K.kw)
                            but = []
                            if op_ is not None: kw['out_pos'] = po = {False: False, 'array': None, 'Ellipsis': Ellipsis, 'pos': K.pos}[op_] if op_ != 'array' else E.particles('op', nd)
                            if op_ in ('Ellipsis', 'pos'):
                                but.append('x')
                                po = K.pos
                            if os_ is not None: kw['out_self'] = so = {False: False, 'Ellipsis': Ellipsis, 'self': a}[os_] if os_ != 'field' else E.field('R', 'os')
                            if os_ in ('Ellipsis', 'self'):
                                but.append('a')
                                so = a
                            wp = [V.binop('*', K.read(ka, d), v.data[0]) for d in range(nd)]
                            ws = K.painted(layout(E, 'R'), g, v.data[0])
                            rs, rp = E.I.iterate(E.method(a, 'readout_vjp', K.pos, v, **kw))
                            if op_ is False: C.require('no gradient of the positions', rp is False, 'the gradient with respect to the positions is not False')
                            else:
                                asrow(C, 'gradient with respect to the positions', rp, np.array(wp, dtype=object))
                                if op_: asrow(C, 'output of the gradient with respect to the positions', po, np.array(wp, dtype=object))
                            if os_ is False: C.require('no gradient of the field', rs is False, 'the gradient with respect to the field is not False')
                            else:
                                C.samearr('gradient with respect to the field', E.value(rs), ws)
                                if os_: C.samearr('output of the gradient with respect to the field', E.value(so), ws)
                            Q.unchanged(C, but)
                        C.scen('readout_vjp(out_pos=%s, out_self=%s, %s)' % (op_, os_, label(oo)), go)
            for op_ in (None, False, 'array', 'Ellipsis', 'pos'):
                for om in (None, False, 'array', 'Ellipsis', 'mass'):
                    for mass in (None, 'array', 'scalar'):
                        if om in ('Ellipsis', 'mass') and mass != 'array': continue
                        for g in (None, 1):
                            if g is not None and op_ is not False: continue
                            oo = dict(o)
                            if g is not None: oo['gradient'] = g

                            def go():
                                K = Case(C, oo)
                                E, Q = K.E, K.Q
                                f = Q.field('R', 'a')
                                kf = content(f.attrs['value'])
                                Q2 = Parts(E)
                                Q2.kept = Q.kept
                                marg, m = datum(mass, Q2, 'm', 1)
                                kw = dict(K.kw)
                                if not noarg(marg): kw['mass'] = marg
                                but = []
                                if op_ is not None: kw['out_pos'] = po = {False: False, 'Ellipsis': Ellipsis, 'pos': K.pos}[op_] if op_ != 'array' else E.particles('op', nd)
                                if op_ in ('Ellipsis', 'pos'):
                                    but.append('x')
                                    po = K.pos
                                if om is not None: kw['out_mass'] = mo = {False: False, 'Ellipsis': Ellipsis, 'mass': marg}[om] if om != 'array' else E.particles('om')
                                if om in ('Ellipsis', 'mass'):
                                    but.append('m')
                                    mo = marg
                                wp = [V.binop('*', K.read(kf, d), m) for d in range(nd)]
                                wm = K.read(kf, g)
                                rp, rm = E.I.iterate(E.method(E.pm, 'paint_vjp', f, K.pos, **kw))
                                if op_ is False: C.require('no gradient of the positions', rp is False, 'the gradient with respect to the positions is not False')
                                else:
                                    asrow(C, 'gradient with respect to the positions', rp, np.array(wp, dtype=object))
                                    if op_: asrow(C, 'output of the gradient with respect to the positions', po, np.array(wp, dtype=object))
                                if om is False: C.require('no gradient of the masses', rm is False, 'the gradient with respect to the masses is not False')
                                else:
                                    asrow(C, 'gradient with respect to the masses', rm, wm)
                                    if om: asrow(C, 'output of the gradient with respect to the masses', mo, wm)
                                Q.unchanged(C, but)
                            C.scen('paint_vjp(out_pos=%s, out_mass=%s, mass=%s, %s)' % (op_, om, mass, label(oo)), go)


CHECKS['P09'] = P09


# ------------------------------------------------------------------ P10 : ghost zones

def atleast(C, what, got, want, site=''):
    """got >= want, by equality of normal forms or refuted by an evaluation"""
    if isinstance(got, (Unknown, Gate)) or not isnum(got):
        C.rep.undec('%s: %s' % (C.name, what))
        return
    d = V.differ(got, want)
    if d is None:
        C.rep.ok('%s: %s' % (C.name, what))
        return
    z = V.binop('-', got, want)
    if not isinstance(z, S):
        C.require(what, bool(z >= 0), 'is %s, needed are %s' % (short(got), short(want)), site)
        return
    if all(c > 0 for c in coefs(z)):
        C.rep.ok('%s: %s' % (C.name, what))
        return
    if all(nonneg(m) and V.ALG.dd.isterm(c) and V.ALG.dd.value(c) >= 0 for m, c in z.p.items()):
        C.rep.ok('%s: %s' % (C.name, what))
        return
    for s in range(1, 9):
        x = evalmax(z, s)
        if x is not None and x < 0:
            C.rep.violation('%s: %s' % (C.name, what), 'is %s, needed are %s%s' % (short(got), short(want), at(site)))
            return
    C.rep.undec('%s: %s%s' % (C.name, what, at(site)))


def coefs(z):
    """constant coefficients of the monomials of positive atoms, or a negative number"""
    A = V.ALG
    for m, c in z.p.items():
        for a, x in m:
            lo = A.bounds[a][0]
            if x % 2 and not (lo is not None and lo >= 0) and a not in A.positive:
                yield -1
                return
        yield A.dd.value(c) if A.dd.isterm(c) else -1


def nonneg(m):
    """product of non-negative atoms"""
    A = V.ALG
    for a, x in m:
        lo = A.bounds[a][0]
        if x % 2 == 0 or a in A.positive or (lo is not None and lo >= 0): continue
        k = A.atoms[a]
        if k[0] == 'u' and k[1] == 'allreduce' and k[2] == ('c', 'MAX'):
            # the maximum of something non-negative, as far as seen
            if all(V.PEval({}, seed=s).poly(dict(k[3][1])) >= 0 for s in range(1, 9)): continue
        return False
    return True


def sup(win, E): return E.I.resolve(win.attrs['support'])


def half(x): return V.binop('*', x, Fraction(1, 2))


def scaled(C, what, e, scale):
    tp = e.args['transformed']
    if tp is None or not isinstance(tp, P.Arr):
        C.rep.undec('%s: %s' % (C.name, what))
        return
    C.samearr(what, tp.data[0], [V.binop('*', V.var('probe%d' % d), scale[d]) for d in range(len(scale))], e.site)


def smoothingcase(C, E, e, need):
    sm = e.args['smoothing']
    sm = E.I.resolve(sm)
    if isinstance(sm, P.Arr):
        for x in sm.data.ravel(): atleast(C, 'width of the ghost zone', x, need, e.site)
    else: atleast(C, 'width of the ghost zone', sm, need, e.site)


def supportof(op): return op.args['k'][1]


def P10(C):
    C.rep.rule('pm.decompose is interpreted with every form of the smoothing and transform: the width handed to the decomposition must be half of the support of the window the argument stands for (the default of '
               'the mesh when omitted) and positions must be scaled by the transform and not shifted; in upsample, downsample, ctranspose and lic the decomposition must be made from the positions that are '
               'sent by it, with the scale of the operation that follows and at least half of the support of its window plus the distance moved.')
    for nd in (3, 2):
        for pmres in (None, 'tsc', 'lanczos3'):
            for sm in (None, 'cic', 'PCS', 'obj:tsc', 'resized:linear', 'number', 'array'):
                for tr in (None, 1):
                    def go():
                        E = C.env(ndim=nd, resampler=pmres, hooks=HOOKS)
                        pos = E.particles('x', nd)
                        kw = {}
                        if sm == 'number': kw['smoothing'] = need = V.var('width', positive=True)
                        elif sm == 'array':
                            kw['smoothing'] = E.I.asarr([V.var('width%d' % d, positive=True) for d in range(nd)])
                            need = None
                        else:
                            warg, win = window(E, sm)
                            if warg is not None: kw['smoothing'] = warg
                            need = half(sup(win, E))
                        targ, t = affine(E, tr)
                        if targ is not None: kw['transform'] = targ
                        E.mark()
                        E.method(E.pm, 'decompose', pos, **kw)
                        ev = E.events('decompose')
                        if len(ev) != 1 or ev[0].guard != V.ALG.dd.T:
                            C.rep.undec('%s: %d decompositions' % (C.name, len(ev)))
                            return
                        e = ev[0]
                        if need is None: C.samearr('width of the ghost zone', e.args['smoothing'], [V.var('width%d' % d, positive=True) for d in range(nd)], e.site)
                        else: smoothingcase(C, E, e, need)
                        scaled(C, 'scale of the positions', e, t[0])
                        C.samearr('positions', e.args['posdata'], pos.data, e.site)
                        C.require('domain of the mesh', e.args['grid'] is E.pm.attrs['domain'], 'decomposes on another domain', e.site)
                    C.scen('decompose(smoothing=%s, transform=%s) %dd, default %s' % (sm, tr, nd, pmres), go)
    for meth in ('upsample', 'downsample', 'ctranspose'):
        for res in (None, 'tsc', 'obj:pcs'):
            for pmres in (None, 'lanczos2'):
                if meth == 'ctranspose' and res is not None: continue

                def go():
                    E = C.env(resampler=pmres, hooks=HOOKS)
                    if meth == 'ctranspose':
                        a = E.field('R', 'a')
                        E.mark()
                        E.method(a, 'ctranspose', E.I.asarr([2, 0, 1]))
                    else:
                        pm2, N2, L2 = E.other('s', resampler='db6')
                        a = E.field('R', 'a', pm=pm2)
                        warg, win = window(E, res)
                        E.mark()
                        E.method(E.pm, meth, a, **({} if warg is None else dict(resampler=warg)))
                    used(C, E)
                C.scen('%s(resampler=%s), default %s' % (meth, res, pmres), go)
    for o in combos(dict(res=[None, 'tsc'], pmres=[None, 'lanczos2'], normalize=[False, True]), True):
        def go():
            E, vec = liccase(C, o)
            used(C, E, vec)
        C.scen('lic(%s)' % label(o), go)


def liccase(C, o, length=3, ds=1, hooks=HOOKS):
    nd = o.get('ndim', 2)
    E = C.env(ndim=nd, resampler=o.get('pmres'), hooks=hooks, penv=dict(ishape=(1,) * nd))
    vec = [E.field('R', 'v%d' % d) for d in range(nd)]
    tex = E.field('R', 't')
    warg, win = window(E, o.get('res'))
    E.win, E.tex = win, tex
    E.old = [(n, f, E.value(f).copy()) for n, f in zip(['v%d' % d for d in range(nd)] + ['t'], vec + [tex])]
    kern = P.Native(lambda I, s: V.u('kernel', s), 'kernel')
    kw = {} if warg is None else dict(resampler=warg)
    E.mark()
    f = E.I.module('pmesh.lic').env['lic']
    E.result = E.I.call(f, [E.I.register(list(vec)), kern, length, ds], dict(kw, texture=tex, normalize=o.get('normalize', False)))
    E.vec = vec
    return E, vec


def exkey(E, lay): return V.akey(lay.akey())


def used(C, E, vec=None):
    """each operation on exchanged positions agrees with the decomposition that sent them"""
    dec = {}
    n = 0
    for e in E.events():
        if e.kind == 'decompose':
            dec[e.args['layout'].key] = e
        elif e.kind in ('c.paint', 'c.readout'):
            lays = set()
            for x in e.args['x']:
                if isinstance(x, S): lays |= set(atomlayouts(x))
            if not lays: continue
            if len(lays) > 1 or not (list(lays)[0] in dec):
                C.rep.undec('%s: route of the positions%s' % (C.name, at(e.site)))
                continue
            d = dec[list(lays)[0]]
            n += 1
            k = e.args['k']
            scaled(C, 'scale of %s' % e.kind, d, k[3])
            lay = d.args['layout']
            home = lay.route(E.I, 'exchange', E.I.new(d.args['posdata'], 'f8', dict(d.args['pos'].sym)), lay.nrecv)
            moved = [V.binop('-', x, y) for x, y in zip(e.args['x'], home.data[0])]
            sm = E.I.resolve(d.args['smoothing'])
            if all(not isinstance(m, S) and m == 0 for m in moved):
                smoothingcase(C, E, d, half(k[1]))
                continue
            # moved positions: the width must cover the motion too
            ghost(C, E, d, e, sm, k, moved)
    C.rep.count('operations on exchanged positions', n)
    if n == 0: C.rep.undec('%s: no operation on exchanged positions' % C.name)


def atomlayouts(x):
    """layouts that sent the parts of a position (not those of the data it was computed from)"""
    A = V.ALG
    out = set()
    for m in x.p:
        for a, e in m:
            k = A.atoms[a]
            if k[0] == 'u' and k[1] == 'local:exchange': out.add(('c', k[2][2][1]))
    return out


def maxatoms(x):
    A = V.ALG
    return [a for a in V.atoms_in(x.p) if not isinstance(a, tuple) and A.atoms[a][0] == 'u' and A.atoms[a][1] == 'allreduce' and A.atoms[a][2] == ('c', 'MAX')]


def evalmax(x, s):
    """evaluation at a point where each maximum over the ranks is attained on this rank"""
    A = V.ALG
    base = {}
    try:
        for a in maxatoms(x):
            base[A.atoms[a]] = V.PEval({}, seed=s).poly(dict(A.atoms[a][3][1]))
        return V.PEval(base, seed=s).poly(num(x))
    except Exception:
        return None


def ghost(C, E, d, e, sm, k, moved):
    """smoothing >= half of the support + |motion| in mesh units, for a motion bounded through a global maximum"""
    A = V.ALG
    what = 'width of the ghost zone of moved positions'
    extra = V.binop('-', sm, half(k[1]))
    if not isinstance(extra, S):
        C.require(what, None if extra >= 0 else False, 'the width %s does not cover the motion' % short(sm), d.site)
        return
    mx = [a for a in V.atoms_in(extra.p) if not isinstance(a, tuple) and A.atoms[a][0] == 'u' and A.atoms[a][1] == 'allreduce' and A.atoms[a][2] == ('c', 'MAX')]
    mono = dict(extra.p)
    if not mx:
        neg = [s for s in range(1, 9) if evalp(extra, s) is not None and evalp(extra, s) < 0]
        if neg: C.require(what, False, 'the width %s is less than half of the support' % short(sm), d.site)
        else: C.rep.undec('%s: %s%s' % (C.name, what, at(d.site)))
        return
    # width - support/2 = c * max + r : substitute the motion of the generic position by its bound, c*max + r >= |motion|*scale
    inner = mk(dict(A.atoms[mx[0]][3][1]))
    bad = None
    ok = True
    for s in range(1, 7):
        # the maximum is attained on this rank
        ev = V.PEval({}, seed=s)
        try:
            top = ev.poly(num(inner))
            ev2 = V.PEval({A.atoms[mx[0]]: top}, seed=s)
            w = ev2.poly(num(extra))
        except Exception:
            ok = False
            continue
        # largest motion: every component of the velocity equal to the maximum
        need = 0
        for c, (m, sc) in enumerate(zip(moved, k[3])):
            lin_ = linearin(m)
            if lin_ is None:
                ok = False
                continue
            try: need = max(need, abs(ev2.poly(num(V.binop('*', lin_, sc)))) * top)
            except Exception: ok = False
        if w < need: bad = (float(w), float(need))
    if bad: C.rep.violation('%s: %s' % (C.name, what), 'the width exceeds half of the support by %g where the positions move by up to %g%s' % (bad + (at(d.site),)))
    elif ok: C.rep.ok('%s: %s' % (C.name, what))
    else: C.rep.undec('%s: %s%s' % (C.name, what, at(d.site)))


def evalp(x, s):
    try: return V.PEval({}, seed=s).poly(num(x))
    except Exception: return None


def linearin(m):
    """sum of the absolute coefficients of the read out values in a motion, None when it has another form"""
    A = V.ALG
    tot = 0
    for mono, c in num(m).items():
        ro = [(a, x) for a, x in mono if V.islocal(A.A(a))]
        if len(ro) != 1 or ro[0][1] != 1: return None
        rest = mk({tuple((a, x) for a, x in mono if (a, x) != ro[0]): c})
        v = rest
        if not isinstance(v, S): v = abs(v)
        else:
            c0 = evalp(v, 1)
            if c0 is None: return None
            if c0 < 0: v = V.binop('*', -1, v)
        tot = V.binop('+', tot, v)
    return tot


CHECKS['P10'] = P10


# ------------------------------------------------------------------ P11 : resampling of images

def prod(xs):
    r = 1
    for x in xs: r = V.binop('*', r, x)
    return r


def P11(C):
    C.rep.rule('upsample and downsample between two meshes with symbolic sizes and boxes are interpreted; the masses painted and values read are compared, as normal forms, with the values of the source times the ratio '
               'of the cell densities of the two meshes exactly when it is due, together with the transforms from one mesh to the other.')
    for nd in (3, 2):
        for dt in ('f8', 'f4', 'c16'):
            for res in (None, 'tsc'):
                for keep in (None, False, True):
                    for size in (3, 1):
                        def go(meth):
                            E = C.env(ndim=nd, dtype=dt, size=size, hooks=HOOKS)
                            pm2, N2, L2 = E.other('s', resampler='pcs')
                            a = E.field('R', 'a', pm=pm2)
                            av = E.value(a).copy()
                            kw = {}
                            if res is not None: kw['resampler'] = res
                            if keep is not None: kw['keep_mean'] = keep
                            ratio = V.binop('/', V.binop('/', prod(N2), prod(L2)), V.binop('/', prod(E.Nm), prod(E.L)))
                            E.mark()
                            r = E.method(E.pm, meth, a, **kw)
                            C.samearr('the source is unchanged', E.value(a), av)
                            w = windows(E)
                            sh = layout(E, 'R')
                            cells = list(np.ndindex(*sh))
                            v = E.value(r)
                            C.require('the result belongs to the mesh', r.attrs['pm'] is E.pm, 'the result belongs to another mesh')
                            ev = [e for e in E.events('decompose', 'c.paint', 'c.readout', 'gather')]
                            dec = [e for e in ev if e.kind == 'decompose']
                            if len(dec) != 1:
                                C.rep.undec('%s: %d decompositions' % (C.name, len(dec)))
                                return
                            lay = dec[0].args['layout']
                            # positions of the cells
                            pre = '' if meth == 'upsample' else 's'
                            q = np.empty((len(cells), nd), dtype=object)
                            for k, j in enumerate(cells):
                                for d in range(nd): q[k, d] = V.binop('+', gstart('R', d, pre), j[d])
                            C.samearr('decomposed positions', dec[0].args['posdata'], q, dec[0].site)
                            route = lay.route(E.I, 'exchange', E.I.new(q.copy(), 'i4'), lay.nrecv)
                            x = list(route.data[0])
                            op0 = [0] * nd
                            own = ([1] * nd, [V.binop('*', -1, gstart('R', d, '')) for d in range(nd)], list(E.Nm))
                            want = np.zeros(sh, dtype=object)
                            if meth == 'upsample':
                                win = w[res] if res else w['pcs']
                                tr = ([V.binop('/', n2, n1) for n1, n2 in zip(E.Nm, N2)], [V.binop('*', -1, gstart('R', d, 's')) for d in range(nd)], list(N2))
                                val = Op(E, win, tr, op0).value(x, 1, content(a.attrs['value']))
                                nnb = Op(E, w['nnb'], own, op0)
                                for k in range(len(cells)):
                                    m = lay.collect('gather', val, k)
                                    if not keep: m = V.binop('*', m, ratio)
                                    for j in cells: want[j] = V.binop('+', want[j], V.binop('*', nnb.weight(list(q[k]), 1, j), m))
                            else:
                                win = w[res] if res else w['cic']
                                src = ([1] * nd, [V.binop('*', -1, gstart('R', d, 's')) for d in range(nd)], list(N2))
                                key = content(a.attrs['value'])
                                col = np.empty(len(cells), dtype=object)
                                for k in range(len(cells)):
                                    col[k] = Op(E, w['nnb'], src, op0).value(list(q[k]), 1, key)
                                    if keep: col[k] = V.binop('/', col[k], ratio)
                                m = lay.route(E.I, 'exchange', E.I.new(col, 'f8'), lay.nrecv).data[0]
                                tr = ([V.binop('/', n1, n2) for n1, n2 in zip(E.Nm, N2)], own[1], own[2])
                                for j in cells: want[j] = V.binop('*', Op(E, win, tr, op0).weight(x, 1, j), m)
                            C.samearr('the resampled image', v, want)
                        C.scen('upsample(resampler=%s, keep_mean=%s) %s %dd %d ranks' % (res, keep, dt, nd, size), lambda: go('upsample'))
                        C.scen('downsample(resampler=%s, keep_mean=%s) %s %dd %d ranks' % (res, keep, dt, nd, size), lambda: go('downsample'))


CHECKS['P11'] = P11


# ------------------------------------------------------------------ P03 : inputs are not modified

def heap(objs):
    """all arrays and plain values reachable from the named objects"""
    out, seen = [], set()

    def walk(path, o, depth):
        if id(o) in seen or depth > 6: return
        if isinstance(o, P.Arr):
            seen.add(id(o))
            if o.fields is not None:
                for k, f in o.fields.items(): walk('%s[%s]' % (path, k), f, depth + 1)
                return
            out.append((path, o, o.data.copy()))
        elif isinstance(o, P.Inst):
            seen.add(id(o))
            for k in sorted(o.attrs, key=str): walk('%s.%s' % (path, k), o.attrs[k], depth + 1)
            if '_base' in o.attrs: bases.append((path, o))
        elif isinstance(o, (list, tuple)):
            seen.add(id(o))
            for k, x in enumerate(o): walk('%s[%d]' % (path, k), x, depth + 1)
        elif isinstance(o, dict):
            seen.add(id(o))
            for k, x in o.items(): walk('%s[%s]' % (path, k), x, depth + 1)
    bases = []
    for n, o in objs: walk(n, o, 0)
    # values of fields seen through their buffers
    for p, f in bases: pass
    return out


class Frozen(object):
    def __init__(self, E, objs):
        self.E = E
        for n, o in objs:
            if isinstance(o, P.Inst) and '_base' in o.attrs: o.attrs['_base'].sync(E.I)
        self.objs = objs
        self.h = heap(objs)

    def check(self, C, but=()):
        """every array is as it was, but for those written on purpose (identified by their memory)"""
        for n, o in self.objs:
            if isinstance(o, P.Inst) and '_base' in o.attrs: o.attrs['_base'].sync(self.E.I)
        for path, a, old in self.h:
            if any(np.shares_memory(a.data, b) for b in but): continue
            if a.data.shape != old.shape: continue
            C.samearr('%s is unchanged' % path, a.data, old)


def buf(f):
    """the memory of a field or array"""
    if isinstance(f, P.Arr): return [f.data]
    return [v.data for v in f.attrs['_base'].mem.views.values()]


def P03(C):
    C.rep.rule('Every operation is interpreted with symbolic inputs; all arrays reachable from the arguments (fields, meshes, coordinates, layouts, positions, masses, transforms) are compared, element by element, with '
               'their contents before the call, but for the declared outputs; results must not share memory with the inputs; where an output is an input, the result is compared with that of a separate output.')
    scenarios_fields(C)
    scenarios_particles(C)
    scenarios_domain(C)


def share(C, what, r, ins):
    """the result has memory of its own"""
    rb = buf(r) if isinstance(r, (P.Arr, P.Inst)) else []
    bad = [n for n, o in ins for b in buf(o) for x in rb if np.shares_memory(b, x)]
    C.require('%s has memory of its own' % what, not bad, 'the result shares the memory of %s' % ', '.join(bad))


def scenarios_fields(C):
    UN = {'neg': lambda I, a: I.binop('*', a, -1)}
    for dt, padded, size, ndim in geometries(C):
        tag = '%s %s %dd %d ranks' % (dt, 'padded' if padded else 'non-padded', ndim, size)

        def scen(name, n, call, own=True, two=False, out=False):
            def go():
                E = C.env(dtype=dt, padded=padded, size=size, ndim=ndim, hooks=HOOKS)
                a = E.field(n, 'a')
                objs = [('a', a)]
                if two: objs.append(('b', E.field(n, 'b')))
                F = Frozen(E, objs)
                E.I.funcs
                r = call(E, *[o for _, o in objs])
                F.check(C)
                if own and isinstance(r, (P.Inst, P.Arr)) and (not isinstance(r, P.Inst) or '_base' in r.attrs): share(C, name, r, objs)
            C.scen('%s of %s %s' % (name, n, tag), go)
        for n in ('R', 'T', 'U'):
            for op in ('+', '-', '*'):
                scen('a %s b' % op, n, lambda E, a, b: E.I.binop(op, a, b), two=True)
                scen('a %s 2' % op, n, lambda E, a: E.I.binop(op, a, 2))
                scen('2 %s a' % op, n, lambda E, a: E.I.binop(op, 2, a))
            scen('a / 3', n, lambda E, a: E.I.binop('/', a, 3))
            scen('a ** 2', n, lambda E, a: E.I.binop('**', a, 2))
            scen('copy', n, lambda E, a: E.method(a, 'copy'))
            scen('apply', n, lambda E, a: E.method(a, 'apply', marker('f')))
            scen('apply index', n, lambda E, a: E.method(a, 'apply', marker('f'), kind='index'))
            scen('ravel', n, lambda E, a: E.method(a, 'ravel'))
            scen('sort', n, lambda E, a: E.method(a, 'sort'))
            scen('cgetitem', n, lambda E, a: E.method(a, 'cgetitem', E.I.register([0] * ndim)))
            for t in ('R', 'T', 'U'):
                scen('cast to %s' % t, n, lambda E, a: E.method(a, 'cast', E.cls(t)))
                def castout(E, a):
                    o = E.field(t, 'o')
                    return E.method(a, 'cast', E.cls(t), out=o)
                scen('cast to an existing %s' % t, n, castout)
            if n == 'R':
                scen('r2c', n, lambda E, a: E.method(a, 'r2c'))
                for t in ('T', 'U'): scen('r2c to %s' % t, n, lambda E, a: E.method(a, 'r2c', E.field(t, 'o')))
                scen('c2r_vjp', n, lambda E, a: E.method(a, 'c2r_vjp'))
                for m in ('csum', 'cmean', 'cnorm'): scen(m, n, lambda E, a: E.method(a, m))
                scen('cdot', n, lambda E, a, b: E.method(a, 'cdot', b), two=True)
            else:
                scen('c2r', n, lambda E, a: E.method(a, 'c2r'))
                scen('c2r to R', n, lambda E, a: E.method(a, 'c2r', E.field('R', 'o')))
                scen('r2c_vjp', n, lambda E, a: E.method(a, 'r2c_vjp'))
                scen('r2c_vjp to R', n, lambda E, a: E.method(a, 'r2c_vjp', E.field('R', 'o')))
                scen('decompress_vjp', n, lambda E, a: E.method(a, 'decompress_vjp'))
                scen('decompress_vjp to another', n, lambda E, a: E.method(a, 'decompress_vjp', E.field(n, 'o')))
                met = lambda: P.Native(lambda I, k: I.ufunc(lambda x: V.u('metric', x), k), 'metric')
                scen('cnorm', n, lambda E, a: E.method(a, 'cnorm'))
                scen('cnorm with metric', n, lambda E, a: E.method(a, 'cnorm', metric=met()))
                scen('cdot', n, lambda E, a, b: E.method(a, 'cdot', b), two=True)
                scen('cdot with metric', n, lambda E, a, b: E.method(a, 'cdot', b, metric=met()), two=True)
                scen('cdot_vjp', n, lambda E, a: E.method(a, 'cdot_vjp', V.var('v')))
                scen('cdot_vjp with metric', n, lambda E, a: E.method(a, 'cdot_vjp', V.var('v'), metric=met()))
            # creation from values
            def go():
                E = C.env(dtype=dt, padded=padded, size=size, ndim=ndim, hooks=HOOKS)
                a = E.field(n, 'a')
                arr = E.I.new(np.empty(a.attrs['value'].data.shape, dtype=object), a.attrs['value'].dtype)
                M.fillsrc(arr, 'src')
                old = arr.data.copy()
                r = E.method(E.pm, 'create', type=E.cls(n), value=arr)
                C.samearr('the values are those given', E.value(r), old)
                C.samearr('the array is unchanged', arr, old)
                share(C, 'the field', r, [('the array', arr)])
                r = E.method(E.pm, 'create', type=E.cls(n), value=a)
                C.samearr('the values are those of the field', E.value(r), E.value(a))
                share(C, 'the field', r, [('the field given', a)])
            C.scen('create %s %s' % (n, tag), go)
        if ndim == 3 and size == 3:
            scen('ctranspose', 'R', lambda E, a: E.method(a, 'ctranspose', E.I.asarr([2, 0, 1])))
    # fields used by resampling
    for n in ('R', 'T'):
        for m in ('R', 'T', 'U'):
            def go():
                E = C.env(hooks=HOOKS, Nm=(4, 6, 8), penv=dict(ostartT=(1, 2, 0), ostartU=(1, 2, 0), sostartT=(0, 1, 1), sostartU=(0, 1, 1)))
                pm2, N2, L2 = E.other('s', Nm=(6, 4, 8))
                a, o = E.field(n, 'a'), E.field(m, 'o', pm=pm2)
                F = Frozen(E, [('a', a)])
                E.method(a, 'resample', o)
                F.check(C)
            C.scen('resample of %s to %s' % (n, m), go)
    for meth in ('upsample', 'downsample'):
        for keep in (False, True):
            def go():
                E = C.env(hooks=HOOKS)
                pm2, N2, L2 = E.other('s')
                a = E.field('R', 'a', pm=pm2)
                F = Frozen(E, [('source', a), ('pm', E.pm)])
                r = E.method(E.pm, meth, a, keep_mean=keep)
                F.check(C)
                share(C, 'the result', r, [('source', a)])
            C.scen('%s keep_mean=%s' % (meth, keep), go)
    for norm in (False, True):
        def go():
            E, vec = liccase(C, dict(normalize=norm))
            for nm, f, old in E.old: C.samearr('%s is unchanged' % nm, E.value(f), old)
        C.scen('lic normalize=%s' % norm, go)
    # the output of apply may be the field itself
    for n in ('R', 'T'):
        def go():
            E = C.env()
            a, b = E.field(n, 'a'), E.field(n, 'a')
            o = E.field(n, 'o')
            E.method(a, 'apply', marker('f'), out=o)
            E.method(b, 'apply', marker('f'), out=b)
            C.samearr('in place as separately', E.value(b), E.value(o))
        C.scen('apply to itself %s' % n, go)
    for n in ('T', 'U'):
        for o_ in ('Ellipsis', 'self'):
            def go():
                E = C.env()
                a, b = E.field(n, 'a'), E.field(n, 'a')
                r = E.method(a, 'decompress_vjp')
                s = E.method(b, 'decompress_vjp', Ellipsis if o_ == 'Ellipsis' else b)
                C.samearr('in place as separately', E.value(s), E.value(r))
            C.scen('decompress_vjp(%s) %s' % (o_, n), go)
    # Affine
    def go():
        E = C.env()
        targ, tr = affine(E, 1)
        F = Frozen(E, [('affine', targ)])
        k = E.I.asarr([V.var('k%d' % d) for d in range(3)])
        r = E.method(targ, 'rescale', k)
        s = E.method(targ, 'shift', k)
        F.check(C)
        C.samearr('rescaled scale', r.attrs['scale'], [V.binop('*', a, V.var('k%d' % d)) for d, a in enumerate(tr[0])])
        C.samearr('rescaled translate', r.attrs['translate'], tr[1])
        C.samearr('rescaled period', r.attrs['period'], tr[2])
        C.samearr('shifted translate', s.attrs['translate'], [V.binop('+', a, V.var('k%d' % d)) for d, a in enumerate(tr[1])])
        C.samearr('shifted scale', s.attrs['scale'], tr[0])
        C.samearr('shifted period', s.attrs['period'], tr[2])
    C.scen('Affine', go)

    def go():
        E = C.env()
        F = Frozen(E, [('pm', E.pm)])
        E.method(E.pm, 'reshape', BoxSize=E.I.asarr([V.var('M%d' % d, positive=True) for d in range(3)]))
        F.check(C)
    C.scen('reshape', go)


def scenarios_particles(C):
    for lay_ in (None, 1):
        for tr in (None, 1):
            for g in (None, 1):
                for meth in ('paint', 'readout', 'readout_jvp', 'paint_jvp', 'readout_vjp', 'paint_vjp'):
                    for hs in ((None, 1) if meth in ('paint', 'readout') else (None,)):
                        if g is not None and meth in ('readout_jvp', 'paint_jvp', 'readout_vjp', 'paint_vjp'): continue

                        def go():
                            o = dict(layout=lay_, tr=tr)
                            if g is not None: o['gradient'] = g
                            K = Case(C, o)
                            E, Q = K.E, K.Q
                            a = Q.field('R', 'a')
                            b = Q.field('R', 'b')
                            m, v, t = Q.arr('m'), Q.arr('v'), Q.arr('t', 3)
                            kw = dict(K.kw)
                            objs = [('field', a), ('other field', b), ('positions', K.pos), ('masses', m), ('cotangents', v), ('tangents', t), ('options', [x for x in kw.values()])]
                            if hs:
                                kw['hsml'] = hh = Q.arr('h')
                                objs.append(('smoothing lengths', hh))
                            objs.append(('pm', E.pm))
                            F = Frozen(E, objs)
                            if meth == 'paint': E.method(E.pm, 'paint', K.pos, mass=m, **kw)
                            elif meth == 'readout': E.method(a, 'readout', K.pos, **kw)
                            elif meth == 'readout_jvp': E.method(a, 'readout_jvp', K.pos, v_self=b, v_pos=t, **kw)
                            elif meth == 'paint_jvp': E.method(E.pm, 'paint_jvp', K.pos, mass=m, v_pos=t, v_mass=v, **kw)
                            elif meth == 'readout_vjp': E.method(a, 'readout_vjp', K.pos, v, **kw)
                            else: E.method(E.pm, 'paint_vjp', a, K.pos, mass=m, **kw)
                            F.check(C)
                        C.scen('%s layout=%s transform=%s gradient=%s hsml=%s' % (meth, lay_, tr, g, hs), go)
                # outputs which are inputs
                for op_ in ('pos', 'Ellipsis', 'separate', False):
                    for o2 in ('input', 'Ellipsis', 'separate', False):
                        for meth in ('readout_vjp', 'paint_vjp'):
                            if g is not None and op_ is not False: continue
                            if set((op_, o2)) <= {'separate', False}: continue

                            def go():
                                o = dict(layout=lay_, tr=tr)
                                if g is not None: o['gradient'] = g
                                K = Case(C, o)
                                E, Q = K.E, K.Q
                                a, m = Q.field('R', 'a'), Q.arr('m')
                                kw = dict(K.kw)
                                mk = lambda alias: {'pos': K.pos, 'Ellipsis': Ellipsis, 'separate': E.particles('op', 3), False: False}[op_ if alias or op_ is False else 'separate']
                                if meth == 'readout_vjp':
                                    mk2 = lambda alias: {'input': a, 'Ellipsis': Ellipsis, 'separate': E.field('R', 'os'), False: False}[o2 if alias or o2 is False else 'separate']
                                    call = lambda alias: list(E.I.iterate(E.method(a, 'readout_vjp', K.pos, m, out_pos=mk(alias), out_self=mk2(alias), **kw)))[::-1]
                                else:
                                    mk2 = lambda alias: {'input': m, 'Ellipsis': Ellipsis, 'separate': E.particles('om'), False: False}[o2 if alias or o2 is False else 'separate']
                                    call = lambda alias: list(E.I.iterate(E.method(E.pm, 'paint_vjp', a, K.pos, mass=m, out_pos=mk(alias), out_mass=mk2(alias), **kw)))
                                get = lambda r: E.value(r) if meth == 'readout_vjp' else r
                                p1, q1 = call(False)
                                p2, q2 = call(True)
                                if op_: C.samearr('gradient of positions, in place as separately', p2, p1)
                                if o2: C.samearr('other gradient, in place as separately', get(q2), get(q1))
                            C.scen('%s out_pos=%s other output=%s layout=%s transform=%s gradient=%s' % (meth, op_, o2, lay_, tr, g), go)


def scenarios_domain(C):
    from pychecks2 import gridnd, mklayout, particles
    from pychecks7 import arguments
    arguments(C)
    for periodic in (True, False):
        for meth in ('load', 'isprimary'):
            def go():
                I, g = gridnd(C, periodic=periodic, rank=1, assign=[0, 1, 2, 1])
                pos = particles(I, 'x', 2)
                sm = I.asarr([V.var('s0', positive=True), V.var('s1', positive=True)])
                E = type('E', (), dict(I=I))
                C.E = E
                F = Frozen(E, [('positions', pos), ('smoothing', sm), ('grid', g)])
                I.call(I.getattr(g, meth), [pos], {})
                F.check(C)
            C.scen('GridND.%s periodic=%s' % (meth, periodic), go)
    for pack in (True, False):
        for n in (1, 2):
            def go():
                I, L, sc, idx = mklayout(C)
                E = C.E
                arrs = [particles(I, 'd%d' % k, 3 if k else None) for k in range(n)]
                F = Frozen(E, [('data', arrs), ('layout', L)])
                I.call(I.getattr(L, 'exchange'), arrs, dict(pack=pack))
                F.check(C)
            C.scen('Layout.exchange pack=%s of %d' % (pack, n), go)
    for mode in ('sum', 'mean', 'any', 'local', 'all'):
        def go():
            I, L, sc, idx = mklayout(C)
            E = C.E
            arr = particles(I, 'd', 2, n=L.attrs['recvlength'])
            F = Frozen(E, [('data', arr), ('layout', L)])
            I.call(I.getattr(L, 'gather'), [arr], dict(mode=mode))
            F.check(C)
        C.scen('Layout.gather %s' % mode, go)


CHECKS['P03'] = P03
