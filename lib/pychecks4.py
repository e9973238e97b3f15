"""Caches and collective operations: what every rank must do alike"""
from fractions import Fraction
import itertools

import numpy as np

import pyval as V
from pyval import S, B, Gate, Unknown, Unsupported, isnum, num, mk, mkb
import pyflow as P
import pynumpy as N
import pymodel as M
from pychecks import at, layout

CHECKS = {}

# ------------------------------------------------------------------ evaluation on several ranks

RANKOPS = ('allgather', 'bcast')


class REval(V.PEval):
    """evaluation of normal forms on one of several ranks with different local data"""
    def __init__(self, peers, rank, seed=0, base=None, lits=None):
        V.PEval.__init__(self, dict(base or {}), seed)
        self.useed = seed
        self.peers, self.rank, self.lits = peers, rank, lits or {}

    def _atom(self, k):
        if k in self.base: return self.base[k]
        if k[0] == 'v' and k[1] == 'rank': return Fraction(self.rank)
        if k[0] == 'u' and k[1] in RANKOPS: return self.peer(k[2]).val(k[3])
        if k[0] == 'u' and k[1] == 'allreduce':
            op = k[2][1]
            vs = [p.val(k[3]) for p in self.peers]
            f = {'SUM': sum, 'MAX': max, 'MIN': min}.get(op)
            if f is not None: return Fraction(f(vs))
            raise Unsupported('allreduce ' + str(op))
        if (k[0] == 'v' and k[2] == 'L') or (k[0] == 'u' and k[1].startswith('local:')):
            self.seed = (self.useed, self.rank)
            try: return V.PEval._atom(self, k)
            finally: self.seed = self.useed
        return V.PEval._atom(self, k)

    def peer(self, r):
        r = int(self.val(r))
        if not 0 <= r < len(self.peers): raise Unsupported('rank %d' % r)
        return self.peers[r]

    def lit(self, k):
        if k[0] == 'bu' and k[1] in RANKOPS: return bool(self.peer(k[3]).val(k[4]))
        if k[0] == 'bu' and k[1] == 'allreduce':
            vs = [bool(p.val(k[4])) for p in self.peers]
            if k[3][1] == 'LOR': return any(vs)
            if k[3][1] == 'LAND': return all(vs)
            raise Unsupported('allreduce ' + str(k[3]))
        if k[0] == 'bu' and k[1] in self.lits: return self.lits[k[1]]
        if k[0] in ('bu', 'bv') and k[2] == 'L':
            self.seed = (self.useed, self.rank)
            try: return V.PEval.lit(self, k)
            finally: self.seed = self.useed
        return V.PEval.lit(self, k)


def ranks(n, seed=0, base=None, lits=None):
    """evaluators of n ranks; base and lits give the assignments of each rank"""
    ps = []
    for r in range(n): ps.append(REval(ps, r, seed, base(r) if base else None, lits(r) if lits else None))
    return ps


# ------------------------------------------------------------------ P06 : cached plans

def equalguard(a, b):
    """condition under which two keys of a dictionary are equal"""
    dd = V.ALG.dd
    if isinstance(a, (Unknown, Gate)) or isinstance(b, (Unknown, Gate)): raise Unsupported('key of the cache')
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b): return dd.F
        g = dd.T
        for x, y in zip(a, b): g = dd.AND(g, equalguard(x, y))
        return g
    if isinstance(a, tuple) or isinstance(b, tuple): return dd.F
    if isnum(a) and isnum(b): return V.truth(V.cmp('==', a, b))
    return dd.T if V.akey(a) == V.akey(b) else dd.F


def resolved(I, k):
    k = I.resolve(k)
    if isinstance(k, (tuple, list)): return tuple(resolved(I, x) for x in k)
    return k


def planconf(I, p):
    """everything that a plan was made for"""
    t = p.partition
    return (p.direction.name, p.type.name, str(p.flags), p.inplace, t.type.name, str(t.flags), tuple(V.akey(x) for x in I.iterate(t.a_n)), meshconf(I, t.procmesh))


def meshconf(I, m):
    return (tuple(V.akey(I.resolve(x)) for x in I.iterate(m.np)), m.comm.name)


def plansof(I, pm):
    out = {}
    for k, p in I.resolve(pm.attrs['plans']).items():
        if k == '__auto__': continue
        if isinstance(p, M.Plan): out[k] = planconf(I, p)
        elif isinstance(p, M.Partition): out[k] = (p.type.name, str(p.flags), tuple(V.akey(x) for x in I.iterate(p.a_n)), meshconf(I, p.procmesh))
    return out


CONF = dict(Nmesh=(4, 6, 8), np=(1, 3), dtype='f8', plan_method='estimate', comm='world', BoxSize='L', resampler='cic')
VARIANTS = [dict(), dict(Nmesh=(4, 8, 6)), dict(Nmesh=(6, 4, 8)), dict(Nmesh=(4, 6, 9)), dict(Nmesh=(5, 6, 8)), dict(Nmesh=(4, 7, 8)), dict(Nmesh=(8, 3, 8)), dict(Nmesh=(4, 6), np=(3,)),
            dict(Nmesh=(6, 4), np=(3,)), dict(dtype='f4'), dict(dtype='c16'), dict(dtype='c8'), dict(plan_method='measure'), dict(plan_method='exhaustive'), dict(comm='other'),
            dict(np=(3, 1)), dict(np=(1, 1, 3)), dict(np=(1, 3, 1)), dict(BoxSize='M'), dict(resampler='tsc'), dict(dtype='c16', np=(1, 1, 3)), dict(dtype='f4', np=(1, 1, 3))]


def P06(C):
    C.rep.rule('Two meshes are constructed in the same abstract history; the second look up finds what the first one stored if their keys are equal. Every plan, partition and process mesh of the second mesh must then '
               'have been made for the very arguments with which a mesh without a cache makes them, for all pairs of configurations which differ in one or more arguments. For symbolic mesh sizes the condition that the keys are '
               'equal must imply that the sizes are. With a cache of unknown contents, different on every rank, all ranks must make or reuse the plans alike, for all contents of the caches.')

    def build(I, E, conf, key=None):
        nd = len(conf['Nmesh'])
        comm = {'world': E.I.world, 'other': C.other}[conf['comm']]
        L = [V.var('%s%d' % (conf['BoxSize'], d), positive=True) for d in range(nd)]
        kw = dict(BoxSize=I.register(L), comm=comm, dtype=conf['dtype'], np=I.register(list(conf['np'])), plan_method=conf['plan_method'], resampler=conf['resampler'])
        return I.call(E.m['ParticleMesh'], [I.register(list(conf['Nmesh']))], kw)

    base = [CONF, dict(CONF, dtype='c16'), dict(CONF, np=(1, 1, 3)), dict(CONF, Nmesh=(6, 4, 8), dtype='f4', plan_method='measure')]
    if not C.thorough: base = base[:3]
    for a in base:
        for v in VARIANTS:
            for order in (0, 1):
                b = dict(a, **v)
                first, second = (a, b) if order == 0 else (b, a)
                if b == a and order: continue

                def go():
                    E = C.env()
                    I = E.I
                    C.other = M.Comm(3, None, 'other')
                    fresh = build(I, E, second)
                    want = plansof(I, fresh)
                    wantm = meshconf(I, fresh.attrs['procmesh'])
                    I.cachehit = 'history'
                    p1 = build(I, E, first)
                    p2 = build(I, E, second)
                    got = plansof(I, p2)
                    C.rep.count('plans and partitions compared', len(got))
                    gets = [e for e in I.events if e.kind == 'cache.get']
                    site = gets[-1].site if gets else ''
                    shared = p1.attrs['plans'] is p2.attrs['plans']
                    C.rep.count('shared' if shared else 'not shared', 1)
                    for k in sorted(set(got) | set(want)):
                        C.require('%s is made for its mesh' % k, got.get(k) == want.get(k), 'a mesh %s uses plans of a mesh %s: %s is made for %s instead of %s' % (
                            show(second, first), show(first, second), k, diff(got.get(k), want.get(k)), diff(want.get(k), got.get(k))), site)
                    C.require('process mesh', meshconf(I, p2.attrs['procmesh']) == wantm, 'a mesh %s uses the process mesh of a mesh %s' % (show(second, first), show(first, second)), site)
                    for n in ('Nmesh', 'BoxSize'):
                        C.samearr(n, p2.attrs[n], fresh.attrs[n])
                    for n in ('affine', 'affine_grid'):
                        for m in ('scale', 'translate', 'period'): C.samearr('%s of %s' % (m, n), p2.attrs[n].attrs[m], fresh.attrs[n].attrs[m])
                    C.require('dtype', p2.attrs['dtype'] == fresh.attrs['dtype'], 'the dtype is the one of another mesh')
                    C.require('communicator', p2.attrs['comm'] is fresh.attrs['comm'], 'the communicator is the one of another mesh')
                    C.require('padding', p2.attrs['_use_padded'] == fresh.attrs['_use_padded'], 'the padding is the one of another mesh')
                C.scen('%s after %s' % (show(second, first), show(first, second)), go)
    # all sizes
    for d in range(3):
        def go():
            E = C.env()
            I = E.I
            C.other = M.Comm(3, None, 'other')
            E.mark()
            other = list(E.Nm)
            other[d] = V.var('M%d' % d, isint=True, positive=True, lo=Fraction(1))
            V.ALG.draw[('v', 'M%d' % d, 'U')] = (4, 18)
            keys = []
            for Nm in (E.Nm, other):
                E.mark()
                I.call(E.m['ParticleMesh'], [I.register(list(Nm))], dict(BoxSize=I.register(list(E.L)), comm=I.world, np=I.register([1, 3])))
                gs, ss = E.events('cache.get'), E.events('cache.set')
                for e in gs + ss: keys.append((e.kind, resolved(I, e.args['key']), e.site, len(keys) and Nm is other))
            dd = V.ALG.dd
            ne = dd.NOT(V.truth(V.cmp('==', E.Nm[d], other[d])))
            for k1, a, s1, o1 in keys:
                for k2, b, s2, o2 in keys:
                    if o1 == o2 or k1 != 'cache.set' or k2 != 'cache.get': continue
                    C.cond('keys of meshes with different sizes along axis %d differ' % d, dd.AND(equalguard(a, b), ne), dd.F, s2)
        C.scen('symbolic sizes, axis %d' % d, go)
    # agreement of the ranks
    for padded in (True, False):
        def go():
            E = C.env(padded=padded)
            I = E.I
            kw = dict(BoxSize=I.register(list(E.L)), comm=I.world, np=I.register(list(E.npl)))
            t = [e for e in I.events if e.kind == 'cache.set'][0].args['value']
            old = E.pm.attrs['plans']
            I.cachehit = 'given'
            for hits in itertools.product((False, True), repeat=E.size):
                table, use, tr = [], [], []
                for turn in range(6):
                    sent, use, tr = [], [], []
                    for r in range(E.size):
                        I.world.rank = r
                        I.cached = lambda key: t if hits[r] else None
                        I.sent, I.received = [], table
                        E.mark()
                        pm = I.call(E.m['ParticleMesh'], [I.register(list(E.Nm))], kw)
                        ev = E.events('coll')
                        for e in ev:
                            if e.guard != V.ALG.dd.T: raise Unsupported('conditional collective call')
                        C.rep.count('collective calls', len(ev))
                        tr.append([(e.args['op'], e.site) for e in ev])
                        use.append(pm.attrs['plans'] is old)
                        sent.append(I.sent)
                    n = min(len(x) for x in sent)
                    new = [[x[k] for x in sent] for k in range(n)]
                    if [[V.akey(y) for y in x] for x in new] == [[V.akey(y) for y in x] for x in table]: break
                    table = new
                else: raise Unsupported('values of the ranks do not settle')
                on = [k for k in range(E.size) if hits[k]]
                for r in range(1, E.size):
                    if tr[r] == tr[0]: C.rep.ok('%s: collective calls when the plans exist on the ranks %s' % (C.name, on))
                    else: C.rep.violation('%s: collective calls' % C.name, 'when the cached plans exist on the ranks %s only, rank %d calls %s' % (on, r, firstdiff(tr[r], tr[0], r)))
                C.require('reused by all ranks or by none (%s)' % on, len(set(use)) == 1, 'when the cached plans exist on the ranks %s only, they are reused on the ranks %s only' % (
                    on, [k for k in range(E.size) if use[k]]))
        C.scen('ranks agree, %s' % ('padded' if padded else 'not padded'), go)


def firstdiff(a, b, r):
    for x, y in zip(a, b):
        if x != y: return '%s (%s) while rank 0 calls %s (%s)' % (x + y)
    if len(a) > len(b): return '%s (%s) which rank 0 does not' % a[len(b)]
    return 'no %s (%s) which rank 0 does' % b[len(a)]


def show(c, other=None):
    ks = [k for k in sorted(c) if other is None or c[k] != other[k]]
    return '(%s)' % ', '.join('%s=%s' % (k, c[k]) for k in ks) if ks else '(equal)'


def diff(a, b):
    if not isinstance(a, tuple) or not isinstance(b, tuple): return a
    return [x for x, y in zip(a, b) if x != y] or a


CHECKS['P06'] = P06


# ------------------------------------------------------------------ M01 : collective operations

SHAPES = [dict(ishape=(1, 2, 3), oshapeT=(2, 1, 3), oshapeU=(3, 1, 2)), dict(ishape=(2, 1, 3), oshapeT=(1, 2, 3), oshapeU=(1, 2, 2)), dict(ishape=(0, 2, 3), oshapeT=(0, 1, 3), oshapeU=(0, 2, 3))]


def opname(e):
    a = e.args
    s = a['op']
    if a.get('rop'): s += '(%s)' % a['rop']
    if 'root' in a: s += '(root=%s)' % (a['root'],)
    if a.get('comm') is not None: s += ' on ' + a['comm'].name
    return s


class Trace(object):
    def __init__(self, rank, events, raised, raises):
        self.rank = rank
        self.ev = [(opname(e), e.guard, e.site, e.loops) for e in events]
        self.raised = raised
        self.raises = raises

    def plain(self):
        return all(g == V.ALG.dd.T and not l for _, g, _, l in self.ev)

    def uniform(self):
        for _, g, _, ls in self.ev:
            for r in ls:
                if any(V.islocal(x) for x in (r.start, r.stop, r.step) if not isinstance(x, (int, np.integer))): return False
        return True

    def key(self):
        """the calls, with the conditions as they are on this rank"""
        return [(n, V.guardat('allgather', self.rank, g), tuple((V.akey(r.start), V.akey(r.stop), V.akey(r.step)) for r in ls)) for n, g, _, ls in self.ev]

    def run(self, ev):
        """the calls at one assignment"""
        out = []
        for n, g, s, ls in self.ev:
            if ev.node(g) == 0: continue
            k = 1
            for r in ls:
                a, b, c = ev.val(r.start), ev.val(r.stop), ev.val(r.step)
                k *= max(0, -(-(b - a) // c)) if c else 0
            out += [(n, s)] * min(int(k), 6)
        return out


def table(a, k):
    return [x[k] for x in a]


def foreign(I, v):
    """value of another analysis"""
    if isinstance(v, P.Arr): return I.new(v.data.copy(), v.dtype, v.sym)
    if isinstance(v, list): return I.register([foreign(I, x) for x in v])
    return v


def keyof(v):
    try: return V.akey(v.data.ravel().tolist() + [v.data.shape] if isinstance(v, P.Arr) else v)
    except Unsupported: return '?'
    except Exception: return '?'


def collective(C, name, make, size=3, shapes=SHAPES, **ek):
    """the collective operations of one call, on every rank"""
    def go():
        old, tr, unk = [], [], []
        for turn in range(5):
            sent, tr = [], []
            for r in range(size):
                E = make(r, shapes[r], turn == 0 and r == 0)
                I = E.I
                prep = E.prep(E) if E.prep else None
                I.sent, I.received = [], [[foreign(I, v) for v in row] for row in old]
                n0 = len(I.events)
                nr = len(I.raises)
                raised = None
                try: E.act(E, prep)
                except P.AbsRaise as e: raised = e
                tr.append(Trace(r, [e for e in I.events[n0:] if e.kind == 'coll'], raised, I.raises[nr:]))
                sent.append(I.sent)
                C.E = E
            n = min(len(x) for x in sent)
            new = [table(sent, k) for k in range(n)]
            if [[keyof(v) for v in x] for x in new] == [[keyof(v) for v in x] for x in old]: break
            old = new
        else: raise Unsupported('values of the ranks do not settle')
        for t in tr:
            C.rep.count('collective calls', len(t.ev))
            C.rep.count('conditional errors', len(t.raises))
        if all(t.raised is not None for t in tr) and not all(t.raised.name in ('ValueError', 'NotImplementedError') for t in tr): raise Unsupported('raises %s' % tr[0].raised)
        agree(C, tr)
    C.scen(name, go)


def agree(C, tr):
    what = '%s: all ranks' % C.name
    if all(t.plain() for t in tr):
        for r in range(1, len(tr)):
            d = mismatch(tr[r].ev, tr[0].ev, r, tr)
            if d: C.rep.violation(what, d)
            else: C.rep.ok('%s: rank %d takes part in the %d calls of rank 0' % (C.name, r, len(tr[0].ev)))
        return
    same = all(t.uniform() for t in tr) and all(t.key() == tr[0].key() for t in tr[1:])
    if same:
        C.rep.ok(what)
        return
    for seed in range(60):
        ps = ranks(len(tr), seed)
        try: got = [t.run(p) for t, p in zip(tr, ps)]
        except (Unsupported, ZeroDivisionError): continue
        for r in range(1, len(tr)):
            d = mismatch(got[r], got[0], r, tr)
            if d:
                C.rep.violation(what, d)
                return
    C.rep.undec('%s: conditional collective calls' % C.name)


def mismatch(a, b, r, tr):
    for x, y in zip(a, b):
        if x[0] != y[0]: return 'rank %d calls %s (%s) while rank 0 calls %s (%s)' % (r, x[0], x[-2] if len(x) > 2 else x[1], y[0], y[-2] if len(y) > 2 else y[1])
    if len(a) == len(b): return None
    p, q, n, l = (r, 0, a, b) if len(a) > len(b) else (0, r, b, a)
    x = n[len(l)]
    why = tr[q].raised
    if why is None and tr[q].raises: why = 'conditionally raises %s at %s' % tr[q].raises[0][1:]
    return 'rank %d calls %s (%s) which rank %d does not%s' % (p, x[0], x[-2] if len(x) > 2 else x[1], q, ': it %s' % (('raises %s' % why) if isinstance(why, P.AbsRaise) else why) if why else '')


def M01(C):
    C.rep.rule('Every public operation is interpreted once for every rank; the ranks differ in their rank, in the shape of their part of the mesh (one of them stores nothing), in their numbers of particles and in all local values. '
               'The sequence of communication calls (operation, reduction, root) must be the same on all ranks: conditions and numbers of iterations around the calls, including those of errors raised before, must not depend on local data '
               'which is not the same on all ranks; results of communications are computed from the values all ranks give to them.')
    from pychecks3 import HOOKS
    hooks = dict(HOOKS)

    def mesh(name, prep, act, dtypes=('f8', 'c16'), paddeds=(True, False), ndims=(3,), starts=False, **ek):
        for dt in dtypes:
            for padded in paddeds:
                for nd in ndims:
                    def make(r, sh, fresh):
                        if starts: sh = dict(sh, **{'%sostart%s' % (p, q): (1, r, 0) for p in ('', 's') for q in 'TU'})
                        E = M.Env(dtype=dt, padded=padded, ndim=nd, rank=r, hooks=hooks, penv=dict(sh), fresh=fresh, **ek)
                        E.prep, E.act = prep, act
                        E.I.world.rank = r
                        return E
                    collective(C, '%s, %s, %s' % (name, dt, 'padded' if padded else 'not padded'), make)

    F = lambda n, nm='a': (lambda E: E.field(n, nm))
    R, T, U = F('R'), F('T'), F('U')
    lst = lambda E, *x: E.I.register(list(x))
    kern = lambda n: P.Native(lambda I, *a: V.u(n, *[x for x in a if isnum(x)]), n)
    cplx, real = ('f8', 'c16'), ('f8',)
    quick = not C.thorough
    kw = dict(paddeds=(True,)) if quick else {}
    kr = dict(dtypes=('f8', 'f4'), **kw) if not quick else dict(dtypes=real, **kw)
    # constructors and transforms
    mesh('ParticleMesh()', None, lambda E, x: E.I.call(E.m['ParticleMesh'], [lst(E, *E.Nm)], dict(BoxSize=lst(E, *E.L), comm=E.I.world, np=lst(E, *E.npl), dtype=E.dtype)))
    def cached(*hits):
        def prep(E):
            t = [e for e in E.I.events if e.kind == 'cache.set'][0].args['value']
            E.I.cachehit = 'given'
            E.I.cached = lambda key: t if E.I.world.rank in hits else None
        return prep
    for hits in ((0,), (1, 2), (0, 1, 2)):
        mesh('ParticleMesh() with cached plans on the ranks %s' % (hits,), cached(*hits), lambda E, x: E.I.call(E.m['ParticleMesh'], [lst(E, *E.Nm)], dict(BoxSize=lst(E, *E.L), comm=E.I.world, np=lst(E, *E.npl), dtype=E.dtype)))
    mesh('ParticleMesh() with default process mesh', None, lambda E, x: E.I.call(E.m['ParticleMesh'], [lst(E, *E.Nm)], dict(BoxSize=lst(E, *E.L), comm=E.I.world, dtype=E.dtype)))
    mesh('reshape', None, lambda E, x: E.method(E.pm, 'reshape', Nmesh=lst(E, *E.Nm)), **kw)
    mesh('respawn', None, lambda E, x: E.method(E.pm, 'respawn', E.I.world, np=lst(E, *E.npl)), **kw)
    for n in 'RTU': mesh('create %s' % n, None, lambda E, x: E.method(E.pm, 'create', E.cls(n), value=3), **kw)
    mesh('r2c', R, lambda E, a: E.method(a, 'r2c'))
    mesh('r2c in place', R, lambda E, a: E.method(a, 'r2c', out=Ellipsis))
    for n, f in (('T', T), ('U', U)):
        mesh('c2r of %s' % n, f, lambda E, a: E.method(a, 'c2r'))
        mesh('cast of %s' % n, f, lambda E, a: E.method(a, 'cast', E.cls('T' if n == 'U' else 'U')), **kw)
        mesh('decompress_vjp of %s' % n, f, lambda E, a: E.method(a, 'decompress_vjp'), **kw)
    mesh('c2r_vjp', R, lambda E, a: E.method(a, 'c2r_vjp'), **kw)
    mesh('r2c_vjp', T, lambda E, a: E.method(a, 'r2c_vjp'), **kw)
    # reductions and elements
    for m in ('csum', 'cmean', 'cnorm'): mesh(m, R, lambda E, a: E.method(a, m))
    mesh('cdot of R', R, lambda E, a: E.method(a, 'cdot', a))
    for n, f in (('T', T), ('U', U)):
        mesh('cdot of %s' % n, f, lambda E, a: E.method(a, 'cdot', a))
        mesh('cnorm of %s' % n, f, lambda E, a: E.method(a, 'cnorm'))
        mesh('cnorm of %s with metric' % n, f, lambda E, a: E.method(a, 'cnorm', metric=kern('metric')), **kw)
        mesh('cdot of %s with metric' % n, f, lambda E, a: E.method(a, 'cdot', a, metric=kern('metric')), **kw)
    for n, f in (('R', R), ('T', T), ('U', U)):
        mesh('cgetitem of %s' % n, f, lambda E, a: E.method(a, 'cgetitem', lst(E, 1, 2, 3)), **kw)
        mesh('csetitem of %s' % n, f, lambda E, a: E.method(a, 'csetitem', lst(E, 1, 2, 3), 5), **kw)
        mesh('ravel of %s' % n, f, lambda E, a: E.method(a, 'ravel'), **kw)
        mesh('ravel of %s into an array' % n, lambda E: (f(E), E.particles('o')), lambda E, a: E.method(a[0], 'ravel', out=a[1]), **kw)
        mesh('unravel of %s' % n, lambda E: (f(E), E.particles('o', dtype='f8' if n == 'R' else 'c16')), lambda E, a: E.method(a[0], 'unravel', a[1]), **kw)
        mesh('apply of %s' % n, f, lambda E, a: E.method(a, 'apply', P.Native(lambda I, k, v: v, 'f')), **kw)
        mesh('sum of %s' % n, f, lambda E, a: E.I.binop('+', a, a), **kw)
    # resampling, previews
    for ax in (None, [0], [0, 1], [2]):
        for Nm in (None, 1):
            mesh('preview(%s, axes=%s)' % ('Nmesh' if Nm else None, ax), R, lambda E, a: E.method(a, 'preview', **dict(dict(axes=lst(E, *ax)) if ax else {}, **(dict(Nmesh=lst(E, 4, 4, 4)) if Nm else {}))), **kr)
    mesh('ctranspose', R, lambda E, a: E.method(a, 'ctranspose', E.I.asarr([2, 0, 1])), **kr)

    def two(E):
        pm2, _, _ = E.other('s')
        return pm2
    for a, b in (('R', 'R'), ('T', 'T'), ('R', 'T'), ('T', 'R'), ('U', 'T')):
        for same in (False, True):
            mesh('resample %s to %s%s' % (a, b, ' of the same mesh' if same else ''), lambda E: (E.field(a, 'a', pm=E.other('s', Nm=E.Nm if same else (6, 4, 8))[0]), E.field(b, 'b')),
                 lambda E, x: E.method(x[0], 'resample', x[1]), Nm=(4, 6, 8), starts=True, **kw)
    for m in ('upsample', 'downsample'):
        for km in (True, False):
            mesh('%s keep_mean=%s' % (m, km), lambda E: E.field('R', 'a', pm=two(E)), lambda E, x: E.method(E.pm, m, x, keep_mean=km), **kr)
    # particles
    for sh in (None, 0.5):
        for rid in (False, True):
            mesh('generate_uniform_particle_grid(shift=%s, return_id=%s)' % (sh, rid), None, lambda E, x: E.method(E.pm, 'generate_uniform_particle_grid', return_id=rid, **(dict(shift=sh) if sh is not None else {})), **kr)
    for ty in ('R', 'T', 'U'):
        mesh('generate_whitenoise(%s)' % ty, None, lambda E, x: E.method(E.pm, 'generate_whitenoise', 5, type=E.cls(ty)), **kr)

    def pos(E, empty):
        if empty and E.I.world.rank == 2:
            return E.I.new(np.empty((0, 3), dtype=object), 'f8')
        return E.particles('x', 3)

    def col(E, empty, n):
        if empty and E.I.world.rank == 2: return E.I.new(np.empty((0,), dtype=object), 'f8')
        return E.particles(n)
    for empty in (False, True):
        tag = ', one rank without particles' if empty else ''
        for sm in (None, 1.5, 'cic'):
            mesh('decompose(smoothing=%s)%s' % (sm, tag), lambda E: pos(E, empty), lambda E, x: E.method(E.pm, 'decompose', x, **(dict(smoothing=sm) if sm is not None else {})), **kr)

        def parts(E):
            x = pos(E, empty)
            return dict(x=x, m=col(E, empty, 'm'), h=col(E, empty, 'h'), lay=E.method(E.pm, 'decompose', x), f=E.field('R', 'a'), v=pos(E, empty) if empty else E.particles('v', 3), o=E.field('R', 'o'))
        for lay in (False, True):
            if empty and not lay: continue
            L = lambda p: dict(layout=p['lay']) if lay else {}
            t2 = tag + (', layout' if lay else '')
            mesh('paint' + t2, parts, lambda E, p: E.method(E.pm, 'paint', p['x'], **L(p)), **kr)
            mesh('paint mass, hsml, hold' + t2, parts, lambda E, p: E.method(E.pm, 'paint', p['x'], mass=p['m'], hsml=p['h'], hold=True, out=p['o'], **L(p)), **kr)
            mesh('RealField.paint' + t2, parts, lambda E, p: E.method(p['f'], 'paint', p['x'], mass=p['m'], **L(p)), **kr)
            mesh('readout' + t2, parts, lambda E, p: E.method(p['f'], 'readout', p['x'], **L(p)), **kr)
            mesh('readout hsml, gradient' + t2, parts, lambda E, p: E.method(p['f'], 'readout', p['x'], hsml=p['h'], gradient=1, resampler='tsc', **L(p)), **kr)
            mesh('readout_jvp' + t2, parts, lambda E, p: E.method(p['f'], 'readout_jvp', p['x'], v_self=p['o'], v_pos=p['v'], **L(p)), **kr)
            mesh('readout_vjp' + t2, parts, lambda E, p: E.method(p['f'], 'readout_vjp', p['x'], p['m'], **L(p)), **kr)
            mesh('paint_jvp' + t2, parts, lambda E, p: E.method(E.pm, 'paint_jvp', p['x'], mass=p['m'], v_pos=p['v'], v_mass=p['h'], **L(p)), **kr)
            mesh('paint_vjp' + t2, parts, lambda E, p: E.method(E.pm, 'paint_vjp', p['o'], p['x'], mass=p['m'], **L(p)), **kr)
            for o in (False, 'm'):
                mesh('paint_vjp out_mass=%s%s' % (o, t2), parts, lambda E, p: E.method(E.pm, 'paint_vjp', p['o'], p['x'], mass=p['m'], out_mass=p['h'] if o else False, **L(p)), **kr)
    for nz in (True, False):
        for tx in (True, False):
            mesh('lic(normalize=%s, texture=%s)' % (nz, tx), lambda E: ([E.field('R', 'v%d' % d) for d in range(3)], E.field('R', 't')),
                 lambda E, a: E.I.call(E.I.module('pmesh.lic').env['lic'], [E.I.register(list(a[0])), kern('kernel'), 3, 1], dict(normalize=nz, **(dict(texture=a[1]) if tx else {}))), dtypes=real, paddeds=(True,))
    M01domain(C)


def h_fill(I, f, args, kw):
    return I.unknown('decomposition of the particles')


def M01domain(C):
    from pychecks2 import gridnd, particles

    def dom(name, act, periodic=True, shape=(2, 2), hooks=None, **gk):
        def make(r, sh, fresh):
            c = type('C', (), {})()
            I, g = gridnd(c, rank=r, fresh=fresh, periodic=periodic, shape=shape, **gk)
            I.hooks['gridnd_fill'] = I.hooks['GridND.gridnd_fill'] = h_fill
            E = type('E', (), dict(I=I, g=g, rank=r))()
            E.prep, E.act = None, act
            return E
        collective(C, name, make)

    def x(E, empty, ncol=2, name='x', n=None):
        if empty and E.rank == 2: return E.I.new(np.empty((0, ncol) if ncol else (0,), dtype=object), 'f8')
        return particles(E.I, name, ncol, **(dict(n=n) if n is not None else {}))
    for periodic in (True, False):
        for shape in ((2, 2), (1, 2)):
            for assign in (None, 'given'):
                gk = dict(periodic=periodic, shape=shape)
                if assign:
                    if shape != (2, 2): continue
                    gk['assign'] = [0, 0, 1, 1]
                tag = 'periodic=%s %s domains%s' % (periodic, '%dx%d' % shape, ' assigned' if assign else '')
                for empty in (False, True):
                    t = tag + (', one rank without particles' if empty else '')
                    for meth in ('load', 'isprimary', 'decompose'):
                        dom('GridND.%s %s' % (meth, t), lambda E, _: E.I.call(E.I.getattr(E.g, meth), [x(E, empty)], {}), **gk)

                def lb(E, _):
                    ld = E.I.call(E.I.getattr(E.g, 'load'), [x(E, False)], {})
                    E.I.call(E.I.getattr(E.g, 'loadbalance'), [ld], {})
                dom('GridND.loadbalance %s' % tag, lb, **gk)

    def lay(name, act, prep=None):
        def make(r, sh, fresh):
            I = M.interp(3, r, fresh=fresh)
            m = I.module('pmesh.domain').env
            sc = I.asarr([V.var('send%d' % q, local=True, isint=True, lo=Fraction(0)) for q in range(3)])
            sc.dtype = np.dtype('i4')
            idx = particles(I, 'ind', n=V.var('nind', local=True, isint=True, lo=Fraction(0)))
            idx.dtype = np.dtype('i4')
            M.fillsrc(idx, 'ind')
            E = type('E', (), dict(I=I, rank=r, sc=sc, idx=idx, m=m))()
            E.new = lambda: I.call(m['Layout'], [I.world, M.npart(), sc, idx], {})
            E.prep = prep or (lambda E: E.new())
            E.act = act
            return E
        collective(C, name, make)
    lay('Layout()', lambda E, _: E.new(), prep=lambda E: None)
    lay('Layout() with counts', lambda E, _: E.I.call(E.m['Layout'], [E.I.world, M.npart(), E.sc, E.idx], dict(recvcounts=E.sc)), prep=lambda E: None)
    lay('Layout.get_exchange_cost', lambda E, L: E.I.call(E.I.getattr(L, 'get_exchange_cost'), [], {}))
    other = lambda k: V.var('nother%d' % k, local=True, isint=True, lo=Fraction(0))
    for pack in (True, False):
        for n in (1, 2, 3):
            for bad in (None,) + tuple(range(n)):
                for where in ((None, 1, 0) if bad is not None else (None,)):
                    lay('Layout.exchange(pack=%s) of %d columns%s%s' % (pack, n, '' if bad is None else ', any length of column %d' % bad, '' if where is None else ' on rank %d' % where),
                        lambda E, L: E.I.call(E.I.getattr(L, 'exchange'), [particles(E.I, 'd%d' % k, 3 if k == 1 else None, **(dict(n=other(k)) if bad == k and where in (None, E.rank) else {})) for k in range(n)], dict(pack=pack)))
        for r0 in (0, 1):
            lay('Layout.exchange(pack=%s), other shape on rank %d' % (pack, r0), lambda E, L: E.I.call(E.I.getattr(L, 'exchange'), [particles(E.I, 'd%d' % k, 3 if k == 1 or E.rank == r0 else None) for k in range(2)], dict(pack=pack)))
        lay('Layout.exchange(pack=%s), any length' % pack, lambda E, L: E.I.call(E.I.getattr(L, 'exchange'), [particles(E.I, 'd%d' % k, n=other(k)) for k in range(2)], dict(pack=pack)))
    for mode in ('sum', 'mean', 'any', 'local', 'all', 'ufunc'):
        for ncol in (None, 2):
            for ln in ('recvlength', None, 0, 1):
                for out in (False, True):
                    def act(E, L):
                        md = E.I.ext['numpy'].attr(E.I, 'fmax') if mode == 'ufunc' else mode
                        kw = dict(mode=md)
                        if out: kw['out'] = particles(E.I, 'o', ncol)
                        E.I.call(E.I.getattr(L, 'gather'), [particles(E.I, 'd', ncol, n=L.attrs['recvlength'] if ln == 'recvlength' or ln not in (None, E.rank) else other(0))], kw)
                    if ncol and not out and ln == 'recvlength':
                        lay('Layout.gather(%s), other shape on rank 1' % mode, lambda E, L: E.I.call(E.I.getattr(L, 'gather'), [particles(E.I, 'd', 2 if E.rank != 1 else 3, n=L.attrs['recvlength'])], dict(mode=mode)))
                    lay('Layout.gather(%s) ncol=%s%s%s' % (mode, ncol, '' if ln == 'recvlength' else ', any length' if ln is None else ', any length on rank %d' % ln, ', out' if out else ''), act)


CHECKS['M01'] = M01
