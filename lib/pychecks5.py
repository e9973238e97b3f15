"""Selection of the windows and their Fourier transforms: the Python and Cython layers and the C painter together"""
from fractions import Fraction
import json
import math
import os

import numpy as np

import pyval as V
from pyval import S, B, Gate, Unknown, Unsupported, isnum, num
import pyflow as P
import pynumpy as N
import pymodel as M
import wchecks as W
from winmodel import WindowModule, Run, Cfg
from cfront import BuildError, ParseError
from cval import Eval, Num
from cint import Interp, Undefined
from report import REPO
from pychecks import layout, circular, short

# window name -> kind, from the documentation (lower case spellings are offered as well)
NAMES = {'NEAREST': 'nearest', 'LINEAR': 'linear', 'NNB': 'tunednnb', 'CIC': 'tunedcic', 'TSC': 'tunedtsc', 'PCS': 'tunedpcs',
         'QUADRATIC': 'quadratic', 'CUBIC': 'cubic', 'LANCZOS2': 'lanczos2', 'LANCZOS3': 'lanczos3', 'LANCZOS4': 'lanczos4', 'LANCZOS5': 'lanczos5',
         'LANCZOS6': 'lanczos6', 'ACG2': 'acg2', 'ACG3': 'acg3', 'ACG4': 'acg4', 'ACG5': 'acg5', 'ACG6': 'acg6', 'DB6': 'db6', 'DB12': 'db12', 'DB20': 'db20',
         'SYM6': 'sym6', 'SYM12': 'sym12', 'SYM20': 'sym20'}
# kind -> reference window: the shapes of the piecewise polynomial windows are those of their definition, the tabulated ones are recorded values
SHAPE = {k: k.upper() for k in NAMES.values()}
SHAPE.update(tunednnb='NEAREST', tunedcic='LINEAR', tunedtsc='QUADRATIC', tunedpcs='CUBIC')
ORDER = {'NEAREST': 1, 'LINEAR': 2, 'QUADRATIC': 3, 'CUBIC': 4}
OFFSETS = [Fraction(1, 16), Fraction(5, 16), Fraction(9, 16), Fraction(13, 16)]
GOLD = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'golden_windows.json')))

_WM = {}


def cmodule():
    if 'm' not in _WM:
        try:
            _WM['m'] = WindowModule(REPO)
        except (BuildError, ParseError, OSError, KeyError) as e:
            raise Unsupported('the C painter: %s' % e)
        W.WM = _WM['m']
    return _WM['m']


class ByType(Cfg):
    """a configuration given by the enumeration constant of the C header"""
    __slots__ = ()


def setup(name, ndim, order, elsize):
    """painter initialised for the constant called `name`"""
    wm = cmodule()
    if name not in wm.enums: raise Unsupported('%s is not a constant of the C header' % name)
    key = '!' + name
    wm.kinds[key] = wm.enums[name]
    return Run(wm, Cfg(key, ndim, order, elsize, periodic=(False,) * ndim))


def weights(run, order, ndim, off, elsize):
    """cell -> weight of a particle of unit mass at the given offsets"""
    E = W.paint_effects(run)
    if E.bad: raise Unsupported('paint: %s' % (E.bad[0][1],))
    return E


def evaluate(run, E, offs, elsize):
    ndim = len(offs)
    b = {('fld', 'mass', 0): Fraction(1)}
    st = elsize
    strides = [0] * ndim
    for d in range(ndim - 1, -1, -1):
        strides[d] = st
        st *= 200
    for d in range(ndim):
        b[('fld', 'scale', d)] = Fraction(1)
        b[('fld', 'translate', d)] = Fraction(0)
        b[('fld', 'size', d)] = Fraction(200)
        b[('fld', 'strides', d)] = Fraction(strides[d])
        b[('pos', 'pos', d)] = 50 + offs[d]
    ev = Eval(run.alg, b, W.table_value)
    out = {}
    for k, p in E.w.items():
        v = ev.poly(p)
        if v == 0: continue
        o = int(ev.poly(dict(k)))
        c = []
        for d in range(ndim):
            q, o = divmod(o, strides[d])
            c.append(q - 50)
        if o: raise Unsupported('addresses between elements')
        c = tuple(c)
        out[c] = out.get(c, 0) + float(v)
    return out


def gold(shape, order, j):
    return {int(c): v for c, v in GOLD[shape][str(order)][j].items()}


def dist(a, b):
    return max([abs(a.get(c, 0) - b.get(c, 0)) for c in set(a) | set(b)] or [0])


_VERD = {}


def far(res, s):
    return max(dist(res[o][j], gold(s, o, j)) / (1 + max([abs(v) for v in gold(s, o, j).values()] or [0])) for o in (0, 1) for j in range(len(OFFSETS)))


def nearest(res):
    """the reference window which the weights res[order][offset] are those of"""
    best = []
    for s in GOLD:
        if s.startswith('TUNED'): continue
        d = far(res, s)
        best.append((d, s))
    return sorted(best)[0]


def typename(E, win):
    st = win.attrs['painter']
    if isinstance(st, (list, tuple, dict)): st = st[0]
    t = E.I.resolve(st.attrs['type'])
    n = getattr(t, 'name', None)
    if n is None: raise Unsupported('type of the painter: %r' % (t,))
    return n, st


def selected(C, what, cname, shape):
    """the C painter initialised with the constant works with the window `shape`"""
    key = (cname, shape)
    if key not in _VERD:
        try:
            _VERD[key] = judge(cname, shape)
        except Undefined as e:
            _VERD[key] = [('bad', 'kernels', '%s: %s' % (cname, e))]
        except Unsupported as e:
            _VERD[key] = [('undec', str(e))]
    for kind, w, *m in _VERD[key]:
        if kind == 'ok': C.rep.ok('%s: %s' % (what, w))
        elif kind == 'bad': C.rep.violation('%s: %s' % (what, w), m[0])
        else: C.rep.undec('%s: %s' % (what, w))


def judge(cname, shape):
    out = []
    wm = cmodule()
    for elsize in (8, 4):
        res = {}
        types = set()
        for order in (0, 1):
            run = setup(cname, 1, (order,), elsize)
            E = weights(run, order, 1, None, elsize)
            types |= E.ty
            res[order] = [{c[0]: v for c, v in evaluate(run, E, [f], elsize).items()} for f in OFFSETS]
            R = W.readout_effects(run)
            types |= R.ty
            for f in OFFSETS:
                a = {c[0]: v for c, v in evaluate(run, E, [f], elsize).items()}
                b = {c[0]: v for c, v in evaluate(run, R, [f], elsize).items()}
                if dist(a, b) > 1e-6 * (1 + max(map(abs, a.values()), default=0)):
                    out.append(('bad', 'painting and reading, order %d, element size %d' % (order, elsize), 'weights for painting %s and reading %s of a particle at offset %s are those of different windows' % (a, b, f)))
        ns = run.alg.const(run.pobj.cells[wm.painter['nativesupport'][0]].p)
        d, s = nearest(res)
        if s == shape and far(res, shape) < 0.02: out.append(('ok', 'value and derivative kernel, element size %d' % elsize))
        else:
            o, j = max(((o, j) for o in (0, 1) for j in range(len(OFFSETS))), key=lambda t: dist(res[t[0]][t[1]], gold(shape, *t)))
            out.append(('bad', 'element size %d' % elsize, '%s: the %s of a particle at the offset %s from its cell are %s, those of %s are %s%s' % (
                cname, 'derivative weights' if o else 'weights', OFFSETS[j], {c: round(v, 4) for c, v in sorted(res[o][j].items())}, shape.lower(), gold(shape, o, j),
                '; they are those of %s' % s.lower() if d < 0.005 else '')))
        if ns != GOLD[shape]['ns']: out.append(('bad', 'native support', '%s: the native support is %s instead of %s' % (cname, ns, GOLD[shape]['ns'])))
        else: out.append(('ok', 'native support, element size %d' % elsize))
        want = {8: {'double'}, 4: {'float'}}[elsize]
        if types == want: out.append(('ok', 'precision, element size %d' % elsize))
        elif types: out.append(('bad', 'precision', '%s: a mesh with elements of %d bytes is accessed as %s' % (cname, elsize, sorted(types))))
    if 'TUNED' in cname or shape in ORDER:
        # the special routines for two and three dimensions
        for ndim in (2, 3):
            for elsize in (8, 4):
                for dd in [None] + list(range(ndim)):
                    o = tuple(1 if d == dd else 0 for d in range(ndim))
                    run = setup(cname, ndim, o, elsize)
                    E = weights(run, o, ndim, None, elsize)
                    worst = None
                    for k in range(3):
                        js = [(k + d) % len(OFFSETS) for d in range(ndim)]
                        got = evaluate(run, E, [OFFSETS[j] for j in js], elsize)
                        want = {(): 1.0}
                        for d in range(ndim):
                            want = {c + (i,): v * w for c, v in want.items() for i, w in gold(shape, o[d], js[d]).items()}
                        if dist(got, want) > 0.005: worst = (js, dist(got, want))
                    w = 'weights in %d dimensions, derivative %s, element size %d' % (ndim, dd, elsize)
                    if worst is None and E.ty == {{8: 'double', 4: 'float'}[elsize]}: out.append(('ok', w))
                    elif worst is None: out.append(('bad', w, '%s: a mesh with elements of %d bytes is accessed as %s' % (cname, elsize, sorted(E.ty))))
                    else: out.append(('bad', w, '%s: the weights of a particle at the offsets %s differ by %.4g from those of %s' % (
                        cname, [str(OFFSETS[j]) for j in worst[0]], worst[1], shape.lower())))
    return out


def W07(C):
    C.rep.rule('pmesh/window.py and pmesh/_window.pyx are interpreted to find the enumeration constant each window name and kind hands to the painter; pmesh_painter_init and the painting and reading routines it selects are then '
               'abstractly interpreted from the compiler IR for that constant, at both precisions and for both orders, and the resulting weights, native support and access width are compared with those of the window of that name.')
    C.rep.assumptions = ['the tables of the tabulated windows are compared with recorded values of the documented windows']
    C.rep.count('window names', len(NAMES))

    def state():
        E = C.env(ndim=2)
        return E, E.I.module('pmesh.window')
    for up in sorted(NAMES):
        kind = NAMES[up]
        shape = SHAPE[kind]

        def go():
            E, m = state()
            w = m.env['windows']
            for spelling in (up, up.lower()):
                if spelling not in w:
                    C.rep.violation('%s: window %r' % (C.name, spelling), 'the window is not known')
                    continue
                a = w[spelling]
                f = E.I.call(m.env['FindResampler'], [spelling], {})
                C.require('FindResampler(%r)' % spelling, f is a, 'FindResampler returns another window than the table')
                n, st = typename(E, a)
                selected(C, 'window %r' % spelling, n, shape)
            if up in m.env:
                n, st = typename(E, m.env[up])
                selected(C, 'pmesh.window.%s' % up, n, shape)
            k = E.I.call(m.env['ResampleWindow'], [], dict(kind=kind))
            n, st = typename(E, k)
            selected(C, 'ResampleWindow(kind=%r)' % kind, n, shape)
            C.same('support without resizing', k.attrs.get('support'), st.attrs['nativesupport'])
            C.same('native support', k.attrs.get('nativesupport'), st.attrs['nativesupport'])
            f = E.I.call(m.env['FindResampler'], [k], {})
            C.require('FindResampler of a window', f is k, 'FindResampler returns another window than the one given')
            r = E.method(k, 'resize', 9)
            n2, st2 = typename(E, r)
            selected(C, 'resized %r' % kind, n2, shape)
            C.same('support after resizing', r.attrs.get('support'), 9)
            C.require('kind after resizing', r.attrs.get('kind') == kind, 'kind is %r' % (r.attrs.get('kind'),))
            # by number
            q = E.I.call(m.env['ResampleWindow'], [st.attrs['type']], {})
            n3, st3 = typename(E, q)
            C.require('kind given by its number', n3 == n, 'the number of %s selects %s' % (n, n3))
        C.scen('window %s' % up, go)
    for bad in ('foo', 'Cic ', 'tuned', 'lanczos7', ''):
        def go():
            E, m = state()
            for fn in ('FindResampler', 'ResampleWindow'):
                try:
                    r = E.I.call(m.env[fn], [bad], {})
                except (P.AbsRaise, P.Dead):
                    C.rep.ok('%s: %s(%r) raises' % (C.name, fn, bad))
                    continue
                C.rep.violation('%s: %s' % (C.name, fn), '%s(%r) returns %s instead of raising an error' % (fn, bad, short(r)))
        C.scen('unknown window %r' % bad, go)
    for bad in (None, 3):
        def go():
            E, m = state()
            try:
                r = E.I.call(m.env['FindResampler'], [bad], {})
            except (P.AbsRaise, P.Dead):
                C.rep.ok('%s raises' % C.name)
                return
            C.rep.violation(C.name, 'FindResampler(%r) returns %s instead of raising an error' % (bad, short(r)))
        C.scen('unknown window %r' % bad, go)


FREQ = [0, 1e-7, 1e-3, 0.3, 1.0, 2.0, 3.0, math.pi, -0.7, -math.pi, 2e-5, -1.9e-5, 5.0]


def sinc(x): return 1.0 if x == 0 else math.sin(x) / x


def fwindow(C, what, cname, shape, support):
    """pmesh_painter_get_fwindow of the constant against the definition"""
    wm = cmodule()
    if cname not in wm.enums: raise Unsupported('%s is not a constant of the C header' % cname)
    key = '!' + cname
    wm.kinds[key] = wm.enums[cname]
    run = Run(wm, Cfg(key, 0, (), 0, support=support))
    it, alg = run.it, run.alg
    w = alg.atom(('fld', 'w', 0))
    v = it.call('@pmesh_painter_get_fwindow', [it.ptr('painter'), Num(alg.A(w))])
    if not isinstance(v, Num): raise Unsupported('value of the Fourier space window')
    n = ORDER.get(shape)
    for x in FREQ:
        got = float(Eval(alg, {('fld', 'w', 0): Fraction(x)}, W.table_value).poly(v.p))
        if n is None: want = 1.0
        else:
            f = 1.0 if support <= 0 else support / n
            want = sinc(0.5 * x * f) ** n
        if abs(got - want) > 1e-7:
            C.rep.violation('%s: %s' % (C.name, what), 'the Fourier space window at the frequency %g is %.9g instead of %.9g (pmesh_painter_get_fwindow)' % (x, got, want))
            return
    C.rep.ok('%s: %s' % (C.name, what))


def W08(C):
    C.rep.rule('pmesh_painter_get_fwindow is abstractly interpreted from the compiler IR, after pmesh_painter_init, for a symbolic frequency, every window and several supports; its closed form is compared with sinc(w/2) to the power '
               'of the native support. The shape of get_fwindow and the product over the axes in get_compensation are compared as normal forms.')
    for up in sorted(NAMES):
        kind = NAMES[up]
        shape = SHAPE[kind]

        def go():
            E = C.env(ndim=2)
            m = E.I.module('pmesh.window')
            w = m.env['windows'][up]
            for sup in (-1, 1, 2, 3, 4, 7, 12):
                o = w if sup == -1 else E.method(w, 'resize', sup)
                n, st = typename(E, o)
                # the painter the method uses must be initialised with the type and support of the window
                E.mark()
                x = V.var('w')
                r = E.method(o, 'get_fwindow', E.I.asarr([x]))
                ev = E.events('c.fwindow')
                if len(ev) != 1: raise Unsupported('%d evaluations of the Fourier window' % len(ev))
                s = ev[0].args['s']
                t = getattr(E.I.resolve(s['type']), 'name', None)
                if t is None: raise Unsupported('type of the painter')
                C.same('frequency handed to the C routine', ev[0].args['w'], x)
                fwindow(C, 'support %d' % sup, t, shape, sup)
        C.scen('Fourier window of %s' % up, go)
    for shp in ((), (3,), (2, 2), (2, 1, 3)):
        def go():
            E = C.env(ndim=2)
            w = E.I.module('pmesh.window').env['windows']['cic']
            a = np.empty(shp, dtype=object)
            for j in np.ndindex(*shp): a[j] = V.var('w%s' % '_'.join(map(str, j)))
            r = E.method(w, 'get_fwindow', E.I.asarr(a.tolist()) if shp else a[()])
            one = [E.method(w, 'get_fwindow', E.I.asarr([a[j]])) for j in np.ndindex(*shp)]
            want = np.empty(shp, dtype=object)
            for j, o in zip(np.ndindex(*shp), one): want[j] = o.data[0]
            if shp: C.samearr('elementwise, same shape', r, want)
            else: C.same('scalar', r.data[()] if isinstance(r, P.Arr) else r, want[()])
        C.scen('get_fwindow of an array of shape %s' % (shp,), go)
    for nd in (1, 2, 3):
        for up in ('CIC', 'PCS', 'LANCZOS2', 'QUADRATIC'):
            def go():
                E = C.env(ndim=max(nd, 2))
                w = E.I.module('pmesh.window').env['windows'][up]
                c = E.method(w, 'get_compensation')
                ws = [V.var('w%d' % d) for d in range(nd)]
                v = V.var('v')
                r = E.I.call(c, [[E.I.asarr([x]) for x in ws], E.I.asarr([v])], {})
                f = 1
                for x in ws: f = V.binop('*', f, E.method(w, 'get_fwindow', E.I.asarr([x])).data[0])
                C.same('mode divided by the product over the axes', r.data[0], V.binop('/', v, f))
            C.scen('compensation of %s, %d dimensions' % (up, nd), go)
            if nd == 1: continue

            def go():
                E = C.env(ndim=nd, dtype='f8')
                w = E.I.module('pmesh.window').env['windows'][up]
                a = E.field('T', 'a')
                av = E.value(a).copy()
                r = E.method(a, 'apply', E.method(w, 'get_compensation'), kind='circular')
                want = np.empty(av.shape, dtype=object)
                memo = {}

                def fw(x):
                    k = V.akey(x)
                    if k not in memo: memo[k] = E.method(w, 'get_fwindow', E.I.asarr([x])).data[0]
                    return memo[k]
                for j in np.ndindex(*av.shape):
                    f = 1
                    for d in range(nd): f = V.binop('*', f, fw(circular(E, 'T', d, j[d])))
                    want[j] = P.castto(a.attrs['value'].dtype, V.binop('/', av[j], f))
                C.samearr('compensated field', E.value(r), want)
            C.scen('field compensated for %s, %d dimensions' % (up, nd), go)


CHECKS = {'W07': W07, 'W08': W08}
