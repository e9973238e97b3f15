"""Release of resources; delivery of particles"""
import ast
import os
import random
from fractions import Fraction
import itertools

import numpy as np

import pyval as V
from pyval import S, B, Gate, Unknown, Unsupported, isnum, num, mk, mkb
import pyflow as P
import pynumpy as N
import pymodel as M
from pychecks2 import particles, gridnd
from pychecks4 import ranks
from pychecks import short

CHECKS = {}


# ------------------------------------------------------------------ M03 : release of resources

def layoutscen(C, name, act):
    """one call of a method of a layout on one of three ranks"""
    def go():
        I = M.interp(3, None)
        C.E = E = type('E', (), dict(I=I))()
        E.m = I.module('pmesh.domain').env
        sc = I.asarr([V.var('send%d' % q, local=True, isint=True, lo=Fraction(0)) for q in range(3)])
        sc.dtype = np.dtype('i4')
        idx = particles(I, 'ind', n=V.var('nind', local=True, isint=True, lo=Fraction(0)))
        idx.dtype = np.dtype('i4')
        M.fillsrc(idx, 'ind')
        L = I.call(E.m['Layout'], [I.world, M.npart(), sc, idx], {})
        n0 = len(I.events)
        how = 'returns'
        try: act(E, L)
        except P.AbsRaise as e: how = 'raises %s' % e
        typestate(C, I.events[n0:], how)
    C.scen(name, go)


def sat(g):
    """an assignment at which a condition holds: yes, no or not found"""
    dd = V.ALG.dd
    if g == dd.F: return 'no'
    if g == dd.T: return 'yes'
    for seed in range(60):
        for p in ranks(3, seed):
            try:
                if p.node(g) != 0: return 'yes'
            except (Unsupported, ZeroDivisionError): continue
    return '?'


def typestate(C, events, how):
    """every datatype: created, committed, used, freed once"""
    dd = V.ALG.dd
    types = []
    for e in events:
        if e.kind == 'dt.create': types.append((e.args['dt'], e))
    C.rep.count('datatypes', len(types))
    basic = set()

    def users(e):
        out = []
        for a in e.args.get('args', ()):
            if isinstance(a, (list, tuple)):
                for x in a:
                    out += [v for _, v in x.alts] if isinstance(x, Gate) else [x]
            elif isinstance(a, Gate):
                for _, b in a.alts:
                    if isinstance(b, (list, tuple)): out += list(b)
        return out

    def need(cond, what):
        """cond is the condition under which the rule is broken"""
        s = sat(cond)
        if s == 'no': C.rep.ok('%s: %s' % (C.name, what[0]))
        elif s == 'yes': C.rep.violation('%s: %s' % (C.name, what[0]), what[1])
        else: C.rep.undec('%s: %s' % (C.name, what[0]))

    for dt, ce in types:
        loops = ce.loops
        commits = [e for e in events if e.kind == 'dt.commit' and e.args['dt'] is dt]
        frees = [e for e in events if e.kind == 'dt.free' and e.args['dt'] is dt]
        uses = [e for e in events if e.kind == 'coll' and any(x is dt for x in users(e))]
        if any(e.loops != loops for e in commits + frees):
            C.rep.undec('%s: the datatype created at %s is released in another loop' % (C.name, ce.site))
            continue
        freed = dd.F
        for e in frees:
            need(dd.AND(freed, e.guard), ('released once', 'the datatype created at %s is released again at %s' % (ce.site, e.site)))
            freed = dd.OR(freed, e.guard)
        need(dd.AND(ce.guard, dd.NOT(freed)), ('released on every path', 'the datatype created at %s is %s before the operation %s' % (ce.site, 'never released' if not frees else 'not released on a path', how)))
        for u in uses + frees:
            done = dd.F
            for e in commits:
                if e.seq < u.seq: done = dd.OR(done, e.guard)
            if u in uses: need(dd.AND(u.guard, dd.NOT(done)), ('committed before its use', 'the datatype created at %s is used at %s before it is committed' % (ce.site, u.site)))
        for u in uses + commits:
            gone = dd.F
            for e in frees:
                if e.seq < u.seq: gone = dd.OR(gone, e.guard)
            need(dd.AND(u.guard, gone), ('not used after its release', 'the datatype created at %s is used at %s after its release' % (ce.site, u.site)))


def M03(C):
    C.rep.rule('Typestate analysis (created, committed, used, released) of every communication datatype over the event traces of the abstract interpretation of Layout.exchange and Layout.gather, for all columns, packings, reduction modes, '
               'outputs, empty and mismatching arguments; events carry the condition under which they are reached (including that no error was raised before), and the conditions of creation and release must agree. '
               'The C generator of white noise is interpreted from the compiler IR with allocation events: each generator and table is released once on every exit and not used afterwards.')
    other = lambda k: V.var('nother%d' % k, local=True, isint=True, lo=Fraction(0))
    call = lambda E, L, m, a, **k: E.I.call(E.I.getattr(L, m), a, k)
    for pack in (True, False):
        for n in (1, 2, 3):
            for odd in (False, True):
                for kind in ('f8', 'f4', 'i4'):
                    if kind != 'f8' and n != 2: continue
                    layoutscen(C, 'Layout.exchange(pack=%s) of %d columns of %s%s' % (pack, n, kind, ', any length' if odd else ''),
                               lambda E, L: call(E, L, 'exchange', [col(E, 'd%d' % k, 3 if k == 1 else None, kind, other(k) if odd else None) for k in range(n)], pack=pack))
    for mode in ('sum', 'mean', 'any', 'local', 'all', 'ufunc', 'unknown'):
        for ncol in (None, 2):
            for ln in ('recvlength', None):
                for out in (False, True):
                    def act(E, L):
                        kw = dict(mode=E.I.ext['numpy'].attr(E.I, 'fmax') if mode == 'ufunc' else mode)
                        if out: kw['out'] = particles(E.I, 'o', ncol)
                        call(E, L, 'gather', [particles(E.I, 'd', ncol, n=L.attrs['recvlength'] if ln else other(0))], **kw)
                    layoutscen(C, 'Layout.gather(%s) ncol=%s%s%s' % (mode, ncol, '' if ln else ', any length', ', out' if out else ''), act)
    import cchecks
    cchecks.chalf(C, 'M03')


def col(E, name, ncol, kind, n):
    a = particles(E.I, name, ncol, **(dict(n=n) if n is not None else {}))
    a.dtype = np.dtype(kind)
    return a


CHECKS['M03'] = M03


# ------------------------------------------------------------------ all ranks together

class Chunked(M.Sources):
    """the source with another number of particles per chunk: the result must not depend on it"""
    def __init__(self, n):
        M.Sources.__init__(self)
        self.n = n

    def get(self, name):
        tree, p = M.Sources.get(self, name)
        if name == 'pmesh.domain' and tree is not None and not getattr(tree, '_chunked', False):
            tree._chunked = True
            for nd in ast.walk(tree):
                if isinstance(nd, ast.Assign) and len(nd.targets) == 1 and isinstance(nd.targets[0], ast.Name) and 'chunk' in nd.targets[0].id:
                    try: v = eval(compile(ast.Expression(nd.value), '', 'eval'), {'__builtins__': {}})
                    except Exception: continue
                    if isinstance(v, int) and v > 100: nd.value = ast.copy_location(ast.Constant(self.n), nd.value)
        return tree, p


CHUNKED = {}


def source(chunk):
    if chunk is None: return M.sources()
    if chunk not in CHUNKED: CHUNKED[chunk] = Chunked(chunk)
    return CHUNKED[chunk]


def another(I, v):
    """value of the analysis of another rank"""
    if isinstance(v, P.Arr):
        a = I.new(v.data.copy(), v.dtype, v.sym)
        if v.fields is not None: a.fields = {k: another(I, f) for k, f in v.fields.items()}
        return a
    if isinstance(v, list): return I.register([another(I, x) for x in v])
    return v


def keyof(v):
    if isinstance(v, P.Arr):
        if v.fields is not None: return ('fields',) + tuple(keyof(f) for f in v.fields.values())
        return ('arr', v.data.shape) + tuple(keyof(x) for x in v.data.ravel())
    if isinstance(v, (list, tuple)): return tuple(keyof(x) for x in v)
    if isinstance(v, (str, int, float, type(None), np.integer, bool, np.bool_, np.dtype)): return repr(v)
    try: return V.akey(v)
    except Exception: return '?'


def allranks(C, size, build, turns=10, chunk=None):
    """the results of build(I, rank) on all ranks; what the ranks send to each other is computed from their own analyses"""
    old = []
    V.reset()
    for turn in range(turns):
        sent, out, err = [], [], []
        for r in range(size):
            I = M.interp(size, r, fresh=False)
            I.src = source(chunk)
            I.exactv = True
            I.sent, I.received = [], [[another(I, v) for v in row] for row in old]
            C.E = type('E', (), dict(I=I))()
            res = e = None
            try: res = build(I, r)
            except (Unsupported, P.AbsRaise, P.Dead) as x: e = x
            except Exception as x:
                if os.environ.get('VERIF_DEBUG') == '2':
                    import traceback
                    traceback.print_exc()
                e = Unsupported('%s: %s' % (type(x).__name__, x))
            out.append((I, res))
            err.append(e)
            sent.append(I.sent)
        n = min(len(x) for x in sent)
        new = [[x[k] for x in sent] for k in range(n)]
        if len(new) == len(old) and [[keyof(v) for v in x] for x in new] == [[keyof(v) for v in x] for x in old]: break
        old = new
    else: raise Unsupported('values of the ranks do not settle')
    return out, err


# ------------------------------------------------------------------ D02 : exchange and gather

def topologies(thorough):
    """numbers of particles on the ranks and, for each pair of ranks, the particles sent"""
    yield 'ghosts', [[[0, 2], [1, 2], []], [[0], [0, 1], [1]], [[], [0], [0, 1]]], [3, 2, 2]
    yield 'one rank without particles', [[[], [0, 1], [1]], [[], [], []], [[0, 1, 3], [2], [1, 2, 3]]], [2, 0, 4]
    yield 'everything to one rank', [[[], [], [0]], [[], [], [0, 1, 2]], [[], [], [0, 1]]], [1, 3, 2]
    yield 'nothing to one rank', [[[0], [], [0, 1]], [[1, 2], [], [0]], [[1], [], [0]]], [2, 3, 2]
    yield 'particles sent nowhere', [[[0], [], []], [[], [1], []], [[], [2], [2]]], [2, 2, 3]
    yield 'everything to all', [[[0, 1]] * 3, [[0]] * 3, [[0, 1, 2]] * 3], [2, 1, 3]
    yield 'one rank', [[[0, 1, 2]]], [3]
    yield 'two ranks', [[[1], [0, 1]], [[0, 1, 2], [2]]], [2, 3]
    rnd = random.Random(4)
    for k in range(30 if thorough else 3):
        P_ = rnd.choice([2, 3, 4])
        n = [rnd.randint(0, 4) for _ in range(P_)]
        send = []
        for p in range(P_):
            s = [[] for _ in range(P_)]
            for i in range(n[p]):
                for q in sorted(rnd.sample(range(P_), rnd.randint(1, min(P_, 3)))): s[q].append(i)
            send.append(s)
        yield 'route %d of %d ranks' % (k, P_), send, n


COLS = {'f8': 'f8', 'f4': 'f4', 'i4': 'i4', 'i8': 'i8', 'b': '?'}


def mkcol(I, name, n, shape=(), dt='f8'):
    d = np.empty((n,) + shape, dtype=object)
    for j in np.ndindex(*d.shape): d[j] = V.var('%s_%s' % (name, '_'.join(map(str, j))), isint=np.dtype(dt).kind in 'iu')
    return I.new(d, dt)


def mklay(I, send, n, r, recv=None):
    m = I.module('pmesh.domain').env
    c = I.asarr([len(x) for x in send[r]])
    c.dtype = np.dtype('i4')
    i = I.asarr([x for s in send[r] for x in s])
    i.dtype = np.dtype('i4')
    kw = {}
    if recv:
        a = I.asarr([len(send[p][r]) for p in range(len(n))])
        a.dtype = np.dtype('i4')
        kw['recvcounts'] = a
    return I.call(m['Layout'], [I.world, n[r], c, i], kw)


def elems(I, a):
    a = I.resolve(a)
    if isinstance(a, Gate): raise Unsupported('one of several arrays')
    if not isinstance(a, P.Arr): raise Unsupported('not an array')
    if a.sym: raise Unsupported('array of unknown length')
    return a


def equal(x, y):
    return V.differ(x, y)


def routes(C, name, send, n, what, build, judge, recv=None):
    """build(I, L, r) on all ranks, judged together with the route of the particles"""
    size = len(n)

    def go():
        def both(I, r):
            L = mklay(I, send, n, r, recv)
            ident = I.call(I.getattr(L, 'exchange'), [mkcol(I, 'id%d' % r, n[r])], {})
            n0 = len(I.events)
            return L, ident, build(I, L, r), n0
        out, err = allranks(C, size, both)
        for r, e in enumerate(err):
            if isinstance(e, P.AbsRaise):
                C.rep.violation('%s: %s' % (C.name, what), 'raises %s on rank %d' % (e, r))
                return
        for e in err:
            if e is not None: raise e
        for I, _ in out:
            for e in I.events:
                if e.kind == 'delivery': C.rep.violation('%s: delivery' % C.name, '%s at %s' % (e.args['what'], e.site))
        # the route
        names = {V.akey(V.var('id%d_%d' % (p, i))): (p, i) for p in range(size) for i in range(n[p])}
        where = []
        for q, (I, (L, ident, res, _)) in enumerate(out):
            ident = elems(I, ident)
            got = []
            for e in ident.data.ravel():
                k = names.get(V.akey(e))
                if k is None:
                    if isinstance(e, Unknown): raise Unsupported('received element: %s' % e.why)
                    C.rep.violation('%s: what rank %d receives' % (C.name, q), 'an element which no rank sent (%s)' % repr(e)[:80])
                    return
                got.append(k)
            want = [(p, i) for p in range(size) for i in send[p][q]]
            if sorted(got) != sorted(want):
                C.rep.violation('%s: what rank %d receives' % (C.name, q), 'particles (rank, number) %s instead of %s' % (sorted(got), sorted(want)))
                return
            C.rep.ok('%s: rank %d receives what is sent to it' % (C.name, q))
            where.append(got)
        judge(out, where)
    C.scen(name, go)


def D02(C):
    C.rep.rule('Layout.exchange and Layout.gather are abstractly interpreted on all ranks of a bounded family of routes (two to four ranks; ghosts, empty ranks, particles sent nowhere or to all) with abstract data; Alltoallv moves the abstract elements '
               'by the counts, offsets and element sizes the ranks give. Each element received must be one sent, every column must follow the route of the others, and each reduction mode must combine exactly the copies of a particle. '
               'For all routes, the counts, offsets and element sizes of the two directions are compared as normal forms of abstract counts.')
    C.rep.assumptions.append('the routes are a bounded family of concrete ones; data are abstract; send buffers are contiguous')
    tops = list(topologies(C.thorough))
    for tname, send, n in tops:
        size = len(n)
        rich = tname in ('ghosts', 'one rank without particles', 'two ranks') or C.thorough
        for recv in ((False, True) if rich else (False,)):
            for pack in (True, False):
                for cols in ([(('f8', ()),), (('f8', ()), ('f4', (3,))), (('i8', ()), ('f4', (2,)), ('f8', (2, 2)))] if rich else [(('f8', ()), ('i4', (2,)))]):
                    if recv and len(cols) != 2: continue

                    def judge(out, where):
                        for q, (I, (L, _, res, _)) in enumerate(out):
                            res = I.resolve(res)
                            if len(cols) == 1: res = (res,)
                            if not isinstance(res, (tuple, list)) or len(res) != len(cols):
                                C.rep.violation('%s: columns' % C.name, 'rank %d gets %s' % (q, 'no tuple of %d columns' % len(cols)))
                                return
                            for k, (dt, sh) in enumerate(cols):
                                a = elems(I, res[k])
                                want = np.empty((len(where[q]),) + sh, dtype=object)
                                for j, (p, i) in enumerate(where[q]):
                                    for s in np.ndindex(*sh): want[(j,) + s] = V.var('c%d%d_%s' % (p, k, '_'.join(map(str, (i,) + s))), isint=np.dtype(dt).kind == 'i')
                                C.samearr('column %d on rank %d' % (k, q), a, want)
                                if a.dtype != np.dtype(dt): C.rep.violation('%s: type of column %d' % (C.name, k), 'is %s instead of %s' % (a.dtype, dt))
                    routes(C, 'exchange(pack=%s) of %s, %s%s' % (pack, ', '.join('%s%s' % (d, list(s) or '') for d, s in cols), tname, ', counts given' if recv else ''), send, n, 'exchange',
                           lambda I, L, r: I.call(I.getattr(L, 'exchange'), [mkcol(I, 'c%d%d' % (r, k), n[r], sh, dt) for k, (dt, sh) in enumerate(cols)], dict(pack=pack)), judge, recv)
        for mode in ('sum', 'mean', 'any', 'local', 'all', 'fmax', 'add', 'multiply', 'default'):
            for dt, sh in ((('f8', ()), ('f4', (2,)), ('f8', (2, 2)), ('i8', ())) if rich else (('f8', (2,)),)):
                if dt == 'i8' and mode == 'mean': continue      # refused by numpy
                for given in ((False, True) if rich or mode in ('sum', 'any') else (False,)):
                    if mode in ('fmax', 'add', 'multiply') and any(i not in [x for s in send[p] for x in s] for p in range(size) for i in range(n[p])): continue
                    gathering(C, tname, send, n, mode, dt, sh, given)
    forms(C)


def gathering(C, tname, send, n, mode, dt, sh, given):
    size = len(n)
    isint = np.dtype(dt).kind == 'i'
    y = lambda q, k, s: V.var('y%d_%s' % (q, '_'.join(map(str, (k,) + s))), isint=isint)

    def build(I, L, r):
        kw = {}
        if mode != 'default': kw['mode'] = I.ext['numpy'].attr(I, mode) if mode in ('fmax', 'add', 'multiply') else mode
        ln = sum(len(send[p][r]) for p in range(size))
        if given: kw['out'] = mkcol(I, 'o%d' % r, sum(map(len, send[r])) if mode == 'all' else n[r], sh, dt)
        res = I.call(I.getattr(L, 'gather'), [mkcol(I, 'y%d' % r, ln, sh, dt)], kw)
        return res, kw.get('out')

    def judge(out, where):
        f = {'fmax': lambda I, a, b: I.ufunc(N.UFUNCS['fmax'][1], a, b, dtype='f8'), 'add': lambda I, a, b: V.binop('+', a, b), 'multiply': lambda I, a, b: V.binop('*', a, b)}.get(mode)
        for p, (I, (L, _, (res, o), _)) in enumerate(out):
            res = elems(I, res)
            idx = [x for s in send[p] for x in s]
            what = 'rank %d' % p
            lens = (len(idx) if mode == 'all' else n[p],) + sh
            if res.data.shape != lens:
                C.rep.violation('%s: %s' % (C.name, what), 'the result has the shape %s instead of %s' % (res.data.shape, lens))
                continue
            if mode in ('sum', 'any', 'local', 'all', 'default') and not given and res.dtype != np.dtype(dt): C.rep.violation('%s: %s' % (C.name, what), 'the result is %s instead of %s' % (res.dtype, dt))
            arrays = [res]
            if given: arrays.append(elems(I, o))
            for a in arrays:
                bad = und = None
                used = {}
                for i in range(lens[0]):
                    copies = [(q, k) for q in range(size) for k, w in enumerate(where[q]) if w == (p, idx[i] if mode == 'all' else i)]
                    for s in np.ndindex(*sh):
                        g = a.data[(i,) + s]
                        ys = [y(q, k, s) for q, k in copies]
                        if mode in ('sum', 'default'): wants = [sumof(ys)]
                        elif mode == 'mean':
                            if not ys: continue
                            wants = [V.binop('/', sumof(ys), len(ys))]
                        elif mode == 'any':
                            if not ys: continue
                            wants = ys
                        elif mode == 'local':
                            wants = [y(q, k, s) for q, k in copies if q == p]
                            if not wants: continue
                        elif mode == 'all':
                            wants = [y(q, k, s) for q, k in copies if used.get((q, k), i) == i]
                        else:
                            wants = []
                            for perm in itertools.permutations(ys):
                                v = perm[0]
                                for z in perm[1:]: v = f(I, v, z)
                                wants.append(v)
                        if isinstance(g, Unknown) or isinstance(g, Gate):
                            und = 'element %s: %s' % (list((i,) + s), getattr(g, 'why', 'several values'))
                            continue
                        hit = None
                        for w, c in zip(wants, copies if mode == 'all' else [None] * len(wants)):
                            if V.akey(g) == V.akey(w) if isnum(g) else False:
                                hit = True
                                break
                        if hit is None:
                            ds = [V.differ(g, w) for w in wants]
                            if any(d is None for d in ds): hit = True
                            elif any(d == 'undecided' for d in ds): und = 'element %s' % list((i,) + s)
                            else: bad = bad or 'particle %d: %s, the copies are %s' % (i, short(g), ', '.join(short(z) for z in ys) or 'none')
                        if hit and mode == 'all':
                            for c in copies:
                                if V.akey(y(c[0], c[1], s)) == V.akey(g): used[c] = i
                if bad: C.rep.violation('%s: %s' % (C.name, what), bad)
                elif und: C.rep.undec('%s: %s: %s' % (C.name, what, und))
                else: C.rep.ok('%s: %s' % (C.name, what), max(1, lens[0]))
    routes(C, 'gather(%s) of %s%s%s, %s' % (mode, dt, list(sh) or '', ', out' if given else '', tname), send, n, 'gather', build, judge)


def sumof(ys):
    t = 0
    for v in ys: t = V.binop('+', t, v)
    return t


def forms(C):
    """counts, offsets and element sizes for abstract counts"""
    def both(name, call, fwd):
        def go():
            I = M.interp(3, None)
            C.E = E = type('E', (), dict(I=I))()
            E.m = I.module('pmesh.domain').env
            sc = I.asarr([V.var('send%d' % q, local=True, isint=True, lo=Fraction(0)) for q in range(3)])
            sc.dtype = np.dtype('i4')
            idx = particles(I, 'ind', n=V.var('nind', local=True, isint=True, lo=Fraction(0)))
            idx.dtype = np.dtype('i4')
            M.fillsrc(idx, 'ind')
            L = I.call(E.m['Layout'], [I.world, M.npart(), sc, idx], {})
            n0 = len(I.events)
            call(E, L)
            ev = [e for e in I.events[n0:] if e.kind == 'coll' and e.args['op'] == 'Alltoallv']
            if not ev: raise Unsupported('no Alltoallv')
            s = [sc.data[k] for k in range(3)]
            rr = I.asarr(I.getattr(L, 'recvcounts'))
            a2a = [e for e in I.events[:n0] if e.kind == 'coll' and e.args['op'] == 'Alltoall']
            if a2a and V.akey(I.asarr(a2a[-1].args['args'][0])) != V.akey(I.asarr(sc)): C.rep.violation('%s: counts announced' % C.name, 'are not those sent (%s)' % a2a[-1].site)
            r = list(rr.data)
            pre = lambda x: [0, x[0], V.binop('+', x[0], x[1])]
            for e in ev:
                a = e.args['args']
                for k, (side, c) in enumerate((('sent', s if fwd else r), ('received', r if fwd else s))):
                    spec = I.resolve(a[k])
                    if not isinstance(spec, (list, tuple)) or len(spec) != 3: raise Unsupported('arguments of Alltoallv')
                    co = I.resolve(spec[1])
                    C.samearr('counts %s' % side, I.asarr(co[0]), np.array(c, dtype=object), e.site)
                    C.samearr('offsets %s' % side, I.asarr(co[1]), np.array(pre(c), dtype=object), e.site)
                    b = I.asarr(spec[0])
                    sz = b.dtype.itemsize
                    for q in b.data.shape[1:]: sz *= q
                    t = I.resolve(spec[2])
                    if isinstance(t, M.MPIType) and not isinstance(t.size, Unknown): C.same('size of the elements %s' % side, t.size, sz, e.site)
                    else: C.rep.undec('%s: size of the elements' % C.name)
                C.rep.count('deliveries', 1)
        C.scen(name, go)
    call = lambda E, L, m, a, **k: E.I.call(E.I.getattr(L, m), a, k)
    for pack in (True, False):
        for kind in ('f8', 'f4', 'i4'):
            both('any route: exchange(pack=%s) of %s' % (pack, kind), lambda E, L: call(E, L, 'exchange', [col(E, 'a', None, kind, None), col(E, 'b', 3, kind, None)], pack=pack), True)
    for mode in ('sum', 'mean', 'any', 'all', 'ufunc'):
        for ncol in (None, 2):
            both('any route: gather(%s) ncol=%s' % (mode, ncol), lambda E, L: call(E, L, 'gather', [particles(E.I, 'd', ncol, n=L.attrs['recvlength'])], mode=E.I.ext['numpy'].attr(E.I, 'fmax') if mode == 'ufunc' else mode), False)


CHECKS['D02'] = D02
