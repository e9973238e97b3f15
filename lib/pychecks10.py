"""Field arithmetic, line integral convolution"""
from fractions import Fraction
import itertools

import numpy as np

import pyval as V
from pyval import S, B, Unknown, Unsupported, isnum
import pyflow as P
import pymodel as M
from pychecks import at, gstart
from pychecks3 import liccase

CHECKS = {}


# ------------------------------------------------------------------ A01 : arithmetic of fields

BINARY = {'+': 'add', '-': 'subtract', '*': 'multiply', '/': 'true_divide', '**': 'power', '//': 'floor_divide', '%': 'remainder'}
COMPARE = {'==': 'equal', '!=': 'not_equal', '<': 'less', '<=': 'less_equal', '>': 'greater', '>=': 'greater_equal'}
UNARY = ('negative', 'absolute', 'conjugate', 'exp', 'square')
NAMES = {'R': 'RealField', 'T': 'TransposedComplexField', 'U': 'UntransposedComplexField'}


def plain(E, x):
    """the operand as an array of its own"""
    if isinstance(x, P.Inst): return E.I.new(E.value(x).copy(), x.attrs['value'].dtype)
    if isinstance(x, P.Arr): return E.I.new(x.data.copy(), x.dtype, dict(x.sym))
    return x


def apply(E, name, *a): return E.I.call(E.I.ext['numpy'].attr(E.I, name), list(a), {})


def isfield(x): return isinstance(x, P.Inst) and 'value' in x.attrs


class Operands(object):
    def __init__(self, C, E, *xs):
        self.C, self.E, self.xs = C, E, xs
        self.old = [None if isnum(x) else plain(E, x) for x in xs]

    def unchanged(self, but=()):
        for k, (x, o) in enumerate(zip(self.xs, self.old)):
            if o is None or any(x is b for b in but): continue
            self.C.samearr('operand %d is unchanged' % k, self.E.value(x) if isfield(x) else x.data, o.data)


def newfield(C, E, r, n, want, operands):
    """r is a new field of the type n on the mesh with the given values"""
    if not isfield(r):
        if isinstance(r, Unknown): C.rep.undec('%s: result: %s' % (C.name, r))
        else: C.require('type of the result', False, 'is %s instead of a %s' % (type(r).__name__, NAMES[n]))
        return
    C.require('type of the result', r.cls is E.cls(n), 'is a %s instead of a %s' % (r.cls.name, NAMES[n]))
    C.require('mesh of the result', r.attrs.get('pm') is E.pm, 'is another mesh')
    C.samearr('values of the result', E.value(r), want.data)
    for x in operands:
        if isfield(x): C.require('memory of the result', r is not x and r.attrs['_base'].mem is not x.attrs['_base'].mem, 'is that of an operand')


def other(E, kind, n):
    if kind == 'field': return E.field(n, 'b')
    if kind == 'number': return V.var('c')
    if kind == 'array':
        a = E.I.new(E.value(E.field(n, 'b')).copy(), E.field(n).attrs['value'].dtype)
        return a


def A01(C):
    C.rep.rule('Operators, in-place operators, comparisons and numpy functions are interpreted on fields of every type, with fields, arrays and numbers as the other operand and with fields and arrays as outputs, with symbolic values: '
               'the result is compared, cell by cell as normal forms, with the function applied to the values of the operands; it must be a new field of the same type on the same mesh, or the very output; operands must be unchanged, '
               'and in-place operations must reach every name of the field; comparisons and results of another shape are plain arrays.')
    cases = [('f8', True), ('f4', False), ('c16', True), ('c8', False)]
    for (dt, padded), n in itertools.product(cases, 'RTU'):
        tag = '%s %s%s' % (NAMES[n], dt, '' if padded else ' non-padded')

        def mk(): return C.env(dtype=dt, padded=padded)
        for op, kind, swap in itertools.product(('+', '-', '*', '/', '**'), ('field', 'number', 'array'), (False, True)):
            if swap and kind == 'field': continue

            def go():
                E = mk()
                a, b = E.field(n, 'a'), other(E, kind, n)
                x, y = (b, a) if swap else (a, b)
                want = apply(E, BINARY[op], plain(E, x), plain(E, y))
                O = Operands(C, E, a, b)
                r = E.I.binop(op, x, y)
                newfield(C, E, r, n, want, (a, b))
                O.unchanged()
            C.scen('%s %s %s: %s' % (kind if swap else 'field', op, 'field' if swap else kind, tag), go)
        for op, kind in itertools.product(('+', '-', '*', '/', '**'), ('field', 'number', 'array', 'self')):
            def go():
                E = mk()
                a = E.field(n, 'a')
                b = a if kind == 'self' else other(E, kind, n)
                alias = a
                want = apply(E, BINARY[op], plain(E, a), plain(E, b))
                O = Operands(C, E, a, b)
                a = E.I.inplace(op, a, b)
                C.samearr('values of the field', E.value(alias), want.data)
                C.require('the field after the operation', a is alias, 'is another object than the field that was operated on (further operations do not reach it)')
                if isfield(a):
                    want = apply(E, 'add', plain(E, a), 1)
                    a = E.I.inplace('+', a, 1)
                    C.samearr('values of the field after a second operation', E.value(alias), want.data)
                O.unchanged(but=(alias,))
            C.scen('field %s= %s: %s' % (op, kind, tag), go)
        for uf, okind in itertools.product(('add', 'true_divide', 'exp'), ('field', 'array', 'self', 'only')):
            def go():
                E = mk()
                a = E.field(n, 'a')
                b = other(E, 'field', n) if okind != 'only' else None
                o = {'field': lambda: E.field(n, 'o'), 'only': lambda: E.field(n, 'o'), 'array': lambda: E.I.new(E.value(E.field(n, 'o')).copy(), a.attrs['value'].dtype), 'self': lambda: a}[okind]()
                ops = [plain(E, a), plain(E, a)] if okind == 'only' else [a, b]
                if uf == 'exp': ops = ops[:1]
                want = apply(E, uf, *[plain(E, x) for x in ops])
                O = Operands(C, E, *ops)
                r = E.I.call(E.I.ext['numpy'].attr(E.I, uf), list(ops), dict(out=o))
                C.samearr('values of the output', E.value(o) if isfield(o) else o.data, want.data)
                C.require('result', r is o, 'is not the output')
                O.unchanged(but=(o,))
            C.scen('numpy.%s(out=%s): %s' % (uf, okind, tag), go)
        for uf in UNARY:
            def go():
                E = mk()
                a = E.field(n, 'a')
                want = apply(E, uf, plain(E, a))
                O = Operands(C, E, a)
                r = E.I.unop(__import__('ast').USub, a) if uf == 'negative' else apply(E, uf, a)
                newfield(C, E, r, n, want, (a,))
                O.unchanged()
            C.scen('%s: %s' % (uf, tag), go)
        for op, kind in itertools.product(COMPARE, ('field', 'number', 'array')):
            if a_complex(n, dt) and op not in ('==', '!='): continue

            def go():
                E = mk()
                a, b = E.field(n, 'a'), other(E, kind, n)
                want = apply(E, COMPARE[op], plain(E, a), plain(E, b))
                O = Operands(C, E, a, b)
                r = E.I.cmpop(op, a, b)
                C.require('result', isinstance(r, P.Arr) if not isinstance(r, Unknown) else None, 'is a %s instead of an array of booleans' % (r.cls.name if isfield(r) else type(r).__name__))
                if isinstance(r, P.Arr): C.samearr('values of the result', r, want.data)
                O.unchanged()
            C.scen('field %s %s: %s' % (op, kind, tag), go)
        for axis in (0, 1):
            def go():
                E = mk()
                a = E.field(n, 'a')
                f = E.I.ext['numpy'].attr(E.I, 'add').attr(E.I, 'reduce')
                want = E.I.call(f, [plain(E, a)], dict(axis=axis))
                O = Operands(C, E, a)
                r = E.I.call(f, [a], dict(axis=axis))
                C.require('result', not isfield(r), 'is a field')
                if isinstance(r, P.Arr): C.samearr('values of the result', r, want.data)
                O.unchanged()
            C.scen('numpy.add.reduce(axis=%d): %s' % (axis, tag), go)

        def go():
            E = mk()
            a = E.field(n, 'a')
            f = E.I.ext['numpy'].attr(E.I, 'add').attr(E.I, 'at')
            w, c = plain(E, a), V.var('c')
            i = E.I.asarr([0, 0])
            E.I.call(f, [w, i, c], {})
            r = E.I.call(f, [a, i, c], {})
            C.require('result', r is None or isinstance(r, Unknown), 'is not None')
            C.samearr('values of the field', E.value(a), w.data)
        C.scen('numpy.add.at: %s' % tag, go)
        for okind in ('new', 'fields', 'mixed'):
            if a_complex(n, dt): break

            def go():
                E = mk()
                a = E.field(n, 'a')
                f = E.I.ext['numpy'].attr(E.I, 'modf')
                want = E.I.call(f, [plain(E, a)], {})
                O = Operands(C, E, a)
                if okind == 'new':
                    r = E.I.call(f, [a], {})
                    C.require('results', isinstance(r, tuple) and len(r) == 2 if not isinstance(r, Unknown) else None, 'are not the two results of the function')
                    for x, w in zip(r, want): newfield(C, E, x, n, w, (a,))
                else:
                    outs = (E.field(n, 'o'), E.field(n, 'p') if okind == 'fields' else E.I.new(E.value(E.field(n, 'p')).copy(), a.attrs['value'].dtype))
                    r = E.I.call(f, [a], dict(out=outs))
                    for k, (o, w) in enumerate(zip(outs, want)): C.samearr('values of output %d' % k, E.value(o) if isfield(o) else o.data, w.data)
                    C.require('results', isinstance(r, tuple) and len(r) == 2 and all(x is y for x, y in zip(r, outs)) if not isinstance(r, Unknown) else None, 'are not the outputs')
                O.unchanged()
            C.scen('numpy.modf(%s): %s' % (okind, tag), go)

        def go():
            E = mk()
            a = E.field(n, 'a')
            want = plain(E, a)
            r = E.method(a, 'copy')
            newfield(C, E, r, n, want, (a,))
            E.I.setitem(r, Ellipsis, 7)
            C.samearr('the original after the copy is changed', E.value(a), want.data)
        C.scen('copy: %s' % tag, go)

        def go():
            E = mk()
            a = E.field(n, 'a')
            want = plain(E, a)
            C.samearr('field[...]', E.I.asarr(E.I.getitem(a, Ellipsis)), want.data)
            b = other(E, 'field', n)
            wb = plain(E, b)
            E.I.setitem(a, Ellipsis, b)
            C.samearr('values after field[...] = other', E.value(a), wb.data)
            C.samearr('other after field[...] = other', E.value(b), wb.data)
        C.scen('element access: %s' % tag, go)
        for vk in ('field', 'array', 'number'):
            def go():
                E = mk()
                v = other(E, vk, n)
                want = plain(E, v) if vk != 'number' else E.I.ufunc(lambda x: v, plain(E, E.field(n)))
                r = E.method(E.pm, 'create', E.cls(n), value=v)
                newfield(C, E, r, n, want, (v,))
            C.scen('create(value=%s): %s' % (vk, tag), go)


def a_complex(n, dt): return n != 'R' or dt[0] == 'c'


CHECKS['A01'] = A01


# ------------------------------------------------------------------ L01 : line integral convolution

class Stay(M.LayoutStub):
    """the route on a single rank: every particle stays"""
    def send(self, e): return e

    def collect(self, name, e, j=None):
        if name != 'gather': raise Unsupported('way back: ' + name)
        return e

    def route(self, I, name, x, n): return I.copy(I.asarr(x)) if hasattr(I, 'copy') else I.new(I.asarr(x).data.copy(), I.asarr(x).dtype, dict(I.asarr(x).sym))


def h_stay(I, f, args, kw):
    lay = Stay()
    b = I.bindargs(f, args, kw)
    p = I.asarr(b['pos'])
    lay.npart = p.shape[0]
    lay.nrecv = lay.a_recvlength = p.shape[0]
    I.event('decompose', posdata=p.data.copy(), layout=lay)
    return lay


REFERENCE = """
def reference(vectors, kernel, length, ds, texture, normalize, resampler, steps, where):
    pm = vectors[0].pm
    start = pm.generate_uniform_particle_grid(shift=0.0)
    if normalize:
        norm = 0
        for v in vectors: norm = norm + v.value ** 2
        norm = norm ** 0.5
        unit = []
        for v in vectors:
            u = v.copy()
            u.value[...] = v.value / where(norm == 0.0, 1.0, norm)
            unit.append(u)
        vectors = unit
    total = texture.readout(start, resampler='nearest')
    for sign in (-1, 1):
        x = start.copy()
        for n in range(steps):
            d = x * 0.0
            for axis in range(len(vectors)):
                d[:, axis] = vectors[axis].readout(x, resampler=resampler) * (ds * pm.BoxSize[axis] / pm.Nmesh[axis])
            middle = x + d * (0.5 * sign)
            weight = kernel(sign * n * ds / (length * 0.5))
            total = total + texture.readout(middle, resampler=resampler) * weight * ds
            x = middle + d * (0.5 * sign)
    return start, total
"""


def reference(E, *a):
    import ast
    I = E.I
    m = P.Module('reference', 'reference')
    m.env['__name__'] = 'reference'
    fr = P.Frame(None, m.env, m)
    I.frames.append(fr)
    try: I.block(ast.parse(REFERENCE).body)
    finally: I.frames.pop()
    return I.call(m.env['reference'], list(a), {})


def L01(C):
    C.rep.rule('lic is interpreted on symbolic meshes, boxes, vectors and textures in two and three dimensions for several lengths and steps, with particles which stay on their rank; the positions and masses which are painted '
               'are compared, as normal forms, with the sum along the line through each mesh point: the texture at the point plus, in both directions and for each step that begins within half of the length, kernel * step * texture in the middle of the step.')
    cases = [(3, 1, 2), (2, 1, 1), (Fraction(5, 2), 1, 2), (2, Fraction(1, 2), 2), (5, 2, 2)] + ([(4, 1, 2), (5, 1, 3), (6, 1, 3), (3, Fraction(1, 2), 3)] if C.thorough else [])
    for nd, (length, ds, steps), res, norm in itertools.product((2, 3), cases, (None, 'tsc'), (False, True)):
        if not C.thorough and nd == 3 and steps > 1 and (norm or res): continue

        def go():
            E, vec = liccase(C, dict(ndim=nd, res=res, normalize=norm, pmres=None if res is None else 'lanczos2'), length=length, ds=ds, hooks={'GridND.decompose': h_stay})
            judge(C, E, vec, length, ds, steps, norm)
        C.scen('lic(length=%s, ds=%s, resampler=%s, normalize=%s) %dd' % (length, ds, res, norm, nd), go)


def judge(C, E, vec, length, ds, steps, norm):
    I = E.I
    ev = E.events('c.paint')
    if len(ev) != 1:
        C.rep.undec('%s: %d paint operations' % (C.name, len(ev)))
        return
    e = ev[0]
    kern = P.Native(lambda I, s: V.u('kernel', s), 'kernel')
    start, total = reference(E, I.register(list(vec)), kern, length, ds, E.tex, norm, E.win, steps, I.ext['numpy'].attr(I, 'where'))
    for d in range(E.ndim):
        C.same('position of the line along axis %d' % d, e.args['x'][d], start.data[0][d], e.site)
    C.same('line integral', e.args['m'], total.data.reshape(-1)[0], e.site)
    r = E.result
    C.require('result', isfield(r) and r.cls is E.cls('R') and r.attrs.get('pm') is E.pm, 'is not a RealField of the mesh of the vectors')
    if isfield(r):
        want = E.method(E.pm, 'paint', start, mass=total, resampler='nearest')
        C.samearr('image', E.value(r), E.value(want), e.site)


CHECKS['L01'] = L01


# ------------------------------------------------------------------ G01 : derived meshes, transforms and windows

def seq(E, v): return list(E.I.asarr(v).data.reshape(-1)) if not isinstance(v, (list, tuple)) else [E.I.resolve(x) for x in v]


def G01(C):
    C.rep.rule('reshape, resize and respawn are interpreted on meshes with symbolic shapes and boxes for every form of the arguments; the mesh made is compared, attribute by attribute, with the shape, box, communicator and process mesh '
               'asked for and with those of the original otherwise. Affine.rescale and shift and ResampleWindow.resize are compared likewise with the scale, translation, period, kind and support they should give; the originals must be unchanged.')

    def check(E, r, N, L, dt, comm, np_, res, ndim):
        if not isinstance(r, P.Inst):
            C.rep.undec('%s: result' % C.name)
            return
        I = E.I
        C.require('a new mesh', r is not E.pm and r.cls is E.pm.cls, 'is the original')
        C.samearr('mesh shape', np.array(seq(E, r.attrs['Nmesh']), dtype=object), np.array(N, dtype=object))
        C.samearr('box size', np.array(seq(E, r.attrs['BoxSize']), dtype=object), np.array(L, dtype=object))
        C.require('precision', np.dtype(r.attrs['dtype']) == np.dtype(dt), 'is %s instead of %s' % (r.attrs['dtype'], dt))
        C.require('communicator', r.attrs['comm'] is comm, 'is another communicator')
        if np_ is not None: C.samearr('process mesh', np.array(seq(E, r.attrs['np']), dtype=object), np.array(np_, dtype=object))
        C.require('default window', same_window(E, r.attrs['resampler'], res), 'is another window')

    for dt, padded, ndim, res in (('f8', True, 3, None), ('f4', False, 3, 'tsc'), ('c16', True, 3, 'obj'), ('f8', True, 2, 'pcs'), ('c8', True, 2, None)):
        def mk():
            E = C.env(dtype=dt, padded=padded, ndim=ndim, resampler=None if res in (None, 'obj') else res)
            if res == 'obj':
                w = E.method(E.I.module('pmesh.window').env['windows']['linear'], 'resize', 5)
                E.pm = E.I.call(E.m['ParticleMesh'], [E.I.register(list(E.Nm))], dict(BoxSize=E.I.register(list(E.L)), comm=E.I.world, dtype=dt, np=E.I.register(list(E.npl)), resampler=w))
            return E, list(E.Nm), list(E.L)
        tag = '%s %dd, default window %s' % (dt, ndim, res)
        for nk, lk in itertools.product((None, 'int', 'list', 'array', 'fewer'), (None, 'number', 'list', 'array')):
            if nk == 'fewer' and ndim == 2: continue

            def go():
                E, N0, L0 = mk()
                I, kw = E.I, {}
                I.penv['prefix'] = 's'
                nd = ndim - 1 if nk == 'fewer' else ndim
                names, boxes = M.meshvars(nd, 's')
                if nk == 'int':
                    N = [names[0]] * nd
                    kw['Nmesh'] = names[0]
                elif nk is None: N = N0
                else:
                    N = list(names)
                    kw['Nmesh'] = I.register(list(N)) if nk != 'array' else I.asarr(list(N))
                if lk == 'number':
                    L = [boxes[0]] * nd
                    kw['BoxSize'] = boxes[0]
                elif lk is None: L = L0[:nd]
                else:
                    L = list(boxes)
                    kw['BoxSize'] = I.register(list(L)) if lk == 'list' else I.asarr(list(L))
                keep = [seq(E, E.pm.attrs[k]) for k in ('Nmesh', 'BoxSize', 'np')]
                try: r = E.method(E.pm, 'reshape', **kw)
                except P.AbsRaise:
                    if nk == 'fewer': return   # the process mesh does not fit
                    raise
                check(E, r, N, L, dt, E.I.world, E.npl, E.pm.attrs['resampler'], nd)
                for k, o in zip(('Nmesh', 'BoxSize', 'np'), keep): C.samearr('%s of the original' % k, np.array(seq(E, E.pm.attrs[k]), dtype=object), np.array(o, dtype=object))
            C.scen('reshape(Nmesh=%s, BoxSize=%s) %s' % (nk, lk, tag), go)

        def go():
            E, N0, L0 = mk()
            E.I.penv['prefix'] = 's'
            names, boxes = M.meshvars(ndim, 's')
            r = E.method(E.pm, 'resize', E.I.register(list(names)))
            check(E, r, names, L0, dt, E.I.world, E.npl, E.pm.attrs['resampler'], ndim)
        C.scen('resize %s' % tag, go)
        for given in (False, True):
            def go():
                E, N0, L0 = mk()
                comm = M.Comm(3, 'sub') if hasattr(M, 'Comm') else E.I.world
                np_ = list(reversed(E.npl))
                r = E.method(E.pm, 'respawn', comm, **(dict(np=E.I.register(list(np_))) if given else {}))
                check(E, r, N0, L0, dt, comm, np_ if given else None, E.pm.attrs['resampler'], ndim)
            C.scen('respawn(np=%s) %s' % ('given' if given else None, tag), go)
    for ndim, which, kind in itertools.product((3, 2, 1), ('rescale', 'shift'), ('number', 'array')):
        def go():
            E = C.env(ndim=3)
            I = E.I
            A = I.module('pmesh.window').env['Affine']
            sc, tr = [[V.var('%s%d' % (k, d)) for d in range(ndim)] for k in ('scale', 'translate')]
            pe = [V.var('period%d' % d, isint=True, lo=Fraction(0)) for d in range(ndim)]
            o = I.call(A, [ndim], dict(scale=I.asarr(list(sc)), translate=I.asarr(list(tr)), period=I.asarr(list(pe))))
            am = V.var('amount') if kind == 'number' else [V.var('amount%d' % d) for d in range(ndim)]
            ams = [am] * ndim if kind == 'number' else am
            r = E.method(o, which, am if kind == 'number' else I.asarr(list(am)))
            for k, w in (('scale', [V.binop('*', a, b) for a, b in zip(sc, ams)] if which == 'rescale' else sc), ('translate', [V.binop('+', a, b) for a, b in zip(tr, ams)] if which == 'shift' else tr), ('period', pe)):
                C.samearr(k, np.array(seq(E, r.attrs[k]), dtype=object), np.array(w, dtype=object))
                C.samearr('%s of the original' % k, np.array(seq(E, o.attrs[k]), dtype=object), np.array({'scale': sc, 'translate': tr, 'period': pe}[k], dtype=object))
            C.require('a new transform', r is not o, 'is the original')
            for k in ('scale', 'translate'):
                d = getattr(E.I.resolve(r.attrs[k]), 'dtype', None)
                C.require('precision of %s' % k, d is None or d == np.dtype('f8'), 'is %s instead of double precision' % d)
        C.scen('Affine.%s by %s, %d axes' % (which, kind, ndim), go)
    for ndim in (3, 2, 1):
        def go():
            E = C.env(ndim=3)
            o = E.I.call(E.I.module('pmesh.window').env['Affine'], [ndim], {})
            for k, w in (('scale', 1), ('translate', 0), ('period', 0)): C.samearr(k, np.array(seq(E, o.attrs[k]), dtype=object), np.array([w] * ndim, dtype=object))
        C.scen('Affine without arguments, %d axes' % ndim, go)

    def go():
        E = C.env()
        for o, sc in ((E.pm.attrs['affine'], [V.binop('/', n, l) for n, l in zip(E.Nm, E.L)]), (E.pm.attrs['affine_grid'], [1, 1, 1])):
            C.samearr('scale', np.array(seq(E, o.attrs['scale']), dtype=object), np.array(sc, dtype=object))
            C.samearr('period', np.array(seq(E, o.attrs['period']), dtype=object), np.array(E.Nm, dtype=object))
            C.samearr('translation', np.array(seq(E, o.attrs['translate']), dtype=object), np.array([V.binop('*', -1, gstart('R', d)) for d in range(3)], dtype=object))
    C.scen('transforms of a mesh', go)
    names = ('nearest', 'linear', 'cubic', 'tsc', 'lanczos3', 'db6', 'acg4', 'pcs')
    for name, s in itertools.product(names, (2, 7)):
        def go():
            E = C.env()
            w = E.I.module('pmesh.window').env['windows'][name]
            sup = w.attrs.get('support') if 'support' in w.attrs else E.I.getattr(w, 'support')
            r = E.method(w, 'resize', s)
            C.same('support', E.I.getattr(r, 'support'), s)
            C.same('support of the original', E.I.getattr(w, 'support'), sup)
            C.require('kind', same_kind(E, r, w), 'is another kind of window')
        C.scen('resize of the window %s to %d' % (name, s), go)


def same_kind(E, a, b): return V.akey(E.I.resolve(E.I.getattr(a, 'kind'))) == V.akey(E.I.resolve(E.I.getattr(b, 'kind')))


def same_window(E, a, b):
    if a is b: return True
    w = E.I.module('pmesh.window').env['windows']
    a, b = [w[x] if isinstance(x, str) else x for x in (a, b)]
    if a is b: return True
    return same_kind(E, a, b) and V.differ(E.I.getattr(a, 'support'), E.I.getattr(b, 'support')) is None


CHECKS['G01'] = G01
