"""Domains: where particles go, whose they are"""
import random
from fractions import Fraction as F

import numpy as np

import pyval as V
from pyval import S, B, Gate, Unknown, Unsupported, isnum
import pyflow as P
import pymodel as M
from pychecks6 import allranks, elems, mkcol

CHECKS = {}
H = F(1, 2)


class Grid:
    def __init__(self, name, edges, size, periodic=True, assign=None):
        self.name, self.edges, self.size, self.periodic = name, [[F(x) for x in e] for e in edges], size, periodic
        self.shape = [len(e) - 1 for e in edges]
        self.ndim = len(edges)
        self.n = int(np.prod(self.shape))
        self.assign = assign
        self.owners = assign if assign is not None else default(self.n, size)

    def make(self, I):
        m = I.module('pmesh.domain').env
        ed = []
        for e in self.edges:
            a = I.asarr([int(x) if x.denominator == 1 else x for x in e])
            a.dtype = np.dtype('f8')
            ed.append(a)
        kw = dict(comm=I.world, periodic=self.periodic)
        if self.assign is not None:
            a = I.asarr(list(self.assign))
            a.dtype = np.dtype('i4')
            kw['DomainAssign'] = a
        return I.call(m['GridND'], [I.register(ed)], kw)

    def __str__(self):
        return '%s, %d ranks, %speriodic%s' % (self.name, self.size, '' if self.periodic else 'not ', '' if self.assign is None else ', owners %s' % (self.assign,))

    # ---- the specification
    def within(self, d, lo, hi, s):
        """domains along an axis which the particle overlaps, and those it only touches"""
        must, may = set(), set()
        e = self.edges[d]
        x = lo if lo == hi else (lo + hi) / 2
        L = e[-1]
        for i in range(self.shape[d]):
            if e[i] == e[i + 1]: continue
            ks = range(-12, 13) if self.periodic else (0,)
            for k in ks:
                a, b = e[i] + k * L, e[i + 1] + k * L
                if s == 0:
                    if a <= x < b: must.add(i)
                elif x - s < b and x + s > a: must.add(i)
                elif x - s <= b and x + s >= a: may.add(i)
        return must, may | must

    def ranks(self, pos, s):
        """ranks which must, and ranks which may receive the particle"""
        w = [self.within(d, lo, hi, s[d]) for d, (lo, hi) in enumerate(pos[:self.ndim])]
        out = []
        for k in (0, 1):
            r = set()
            for j in np.ndindex(*self.shape):
                if all(j[d] in w[d][k] for d in range(self.ndim)): r.add(self.owners[int(np.ravel_multi_index(j, self.shape))])
            out.append(r)
        return out

    def domain(self, pos):
        """the domain of a position, or None"""
        w = [self.within(d, lo, hi, 0)[0] for d, (lo, hi) in enumerate(pos[:self.ndim])]
        if any(len(x) != 1 for x in w): return None
        return int(np.ravel_multi_index([list(x)[0] for x in w], self.shape))

    def regions(self, d, s):
        """the positions along an axis, up to those which nothing distinguishes: the open intervals between the
        places where the answer can change, and the edges themselves"""
        e = self.edges[d]
        L = e[-1]
        crit = set()
        for k in range(-4, 5) if self.periodic else (0,):
            for x in e:
                for t in ({F(0), s} if not s else {F(0), s, -s}): crit.add(x + t + k * L)
        lo, hi = (-L, 2 * L) if self.periodic else (e[0] - 1 - s, e[-1] + 1 + s)
        c = sorted(x for x in crit | {lo, hi} if lo <= x <= hi)
        out = []
        for a, b in zip(c[:-1], c[1:]):
            w = (b - a) / 1000
            out.append((a + w, b - w))
        for k in (-1, 0, 1) if self.periodic else (0,):
            for x in sorted(set(e)):
                if lo <= x + k * L <= hi: out.append((x + k * L,) * 2)
        return out


def default(n, size):
    """the documented default: one domain per rank, or contiguous pieces"""
    if size >= n: return list(range(n))
    r = [0] * n
    for i in range(size):
        for j in range(i * n // size, (i + 1) * n // size): r[j] = i
    return r


def grids(thorough):
    yield Grid('edges 0 1 2.5 4', [[0, 1, 5 * H, 4]], 3, True, [2, 0, 1])
    yield Grid('edges 0 1 2.5 4', [[0, 1, 5 * H, 4]], 2, True)
    yield Grid('edges 0 1 2.5 4', [[0, 1, 5 * H, 4]], 4, False)
    yield Grid('empty domain within', [[0, 1, 1, 4]], 3, True, [0, 1, 2])
    yield Grid('empty domains at the end', [[0, 2, 2, 2]], 3, True, [1, 2, 0])
    yield Grid('empty domain at the start', [[0, 0, 3, 4]], 2, True, [1, 0, 0])
    yield Grid('empty domains, not periodic', [[1, 1, 2, 4, 4]], 3, False, [0, 1, 2, 0])
    yield Grid('one domain', [[0, 5]], 2, True)
    yield Grid('one domain', [[2, 5]], 1, False, [0])
    yield Grid('2x3', [[0, 1, 3], [0, 2, 2, 5]], 3, True, [2, 1, 0, 1, 0, 2])
    yield Grid('2x3', [[0, 1, 3], [0, 2, 2, 5]], 7, True)
    yield Grid('2x3', [[0, 1, 3], [0, 2, 3, 5]], 4, True, [0, 3, 3, 1, 0, 3])
    yield Grid('2x2', [[-1, 1, 3], [2, 4, 5]], 3, False, [2, 1, 1, 2])
    yield Grid('2x2x2', [[0, 1, 3], [0, 2, 3], [0, 1, 2]], 3, True, [0, 2, 1, 0, 2, 1, 1, 0])
    yield Grid('1x2x3', [[0, 2], [0, 1, 3], [0, 3, 4, 4]], 2, True, None)
    if thorough:
        rnd = random.Random(7)
        for k in range(24):
            ndim = rnd.choice([1, 2, 2, 3])
            per = rnd.random() < 0.7
            edges = []
            for d in range(ndim):
                e = [0 if per else rnd.randint(-2, 2)]
                for i in range(rnd.randint(1, 4 if ndim < 3 else 2)): e.append(e[-1] + rnd.choice([0, 1, 1, H, 2, F(3, 2)]))
                if e[-1] == e[0]: e[-1] = e[0] + 1
                edges.append(e)
            n = int(np.prod([len(e) - 1 for e in edges]))
            size = rnd.randint(1, 5)
            yield Grid('grid %d %s' % (k, [[str(x) for x in e] for e in edges]), edges, size, per, rnd.choice([None, [rnd.randrange(size) for _ in range(n)]]))


def smoothings(g, thorough):
    L = [e[-1] - e[0] for e in g.edges]
    yield [F(0)] * g.ndim
    yield [F(1, 10)] * g.ndim
    yield [F(6, 5)] * g.ndim
    yield [min(L)] * g.ndim
    if g.ndim == 1: yield [L[0] / 2]
    if g.ndim > 1: yield [F(d) / 2 for d in range(g.ndim)]
    if g.ndim < 3 or thorough: yield [F(5, 2) * max(L)] * g.ndim


def positions(g, s, rnd, more=1):
    """positions whose coordinates visit all regions of every axis"""
    reg = [g.regions(d, s[d]) for d in range(g.ndim)]
    n = max(len(r) for r in reg) * more
    cols = []
    for r in reg:
        c = (r * (n // len(r) + 1))[:n]
        rnd.shuffle(c)
        cols.append(c)
    return list(zip(*cols))


def mkpos(I, name, pos, extra=0):
    nd = len(pos[0]) if pos else 1
    d = np.empty((len(pos), nd + extra), dtype=object)
    for i, p in enumerate(pos):
        for j, (lo, hi) in enumerate(p):
            if lo == hi: d[i, j] = int(lo) if lo.denominator == 1 else lo
            else: d[i, j] = V.var('%s%d_%d' % (name, i, j), lo=lo, hi=hi)
        for j in range(extra): d[i, nd + j] = V.var('%se%d_%d' % (name, i, j))
    return I.new(d, 'f8')


def say(p): return '(' + ', '.join('%s' % lo if lo == hi else 'in (%s, %s)' % (fl(lo), fl(hi)) for lo, hi in p) + ')'
def fl(x): return '%.4g' % float(x)


def share(pos, size, rnd, empty=False):
    out = [[] for _ in range(size)]
    for p in pos: out[rnd.randrange(1 if empty and size > 1 else 0, size)].append(p)
    return out


def failed(C, out, err, what):
    for r, e in enumerate(err):
        if isinstance(e, P.AbsRaise):
            C.rep.violation('%s: %s' % (C.name, what), 'raises %s on rank %d' % (e, r))
            return True
    for e in err:
        if e is not None: raise e
    for I, _ in out:
        for e in I.events:
            if e.kind == 'delivery':
                C.rep.violation('%s: delivery' % C.name, '%s at %s' % (e.args['what'], e.site))
                return True
    return False


def arrivals(C, g, out, pos, n):
    """the particles each rank gets, from the identifiers exchanged"""
    names = {V.akey(V.var('id%d_%d' % (p, i))): (p, i) for p in range(g.size) for i in range(n[p])}
    got = []
    for q, (I, ident) in enumerate(out):
        row = []
        for e in elems(I, ident).data.ravel():
            k = names.get(V.akey(e)) if isnum(e) and not isinstance(e, (Unknown, Gate)) else None
            if k is None: raise Unsupported('received element %s' % repr(e)[:60])
            row.append(k)
        got.append(row)
    return got


def judge(C, g, s, got, pos):
    bad = None
    for p in range(g.size):
        for i, x in enumerate(pos[p]):
            must, may = g.ranks(x, s)
            have = [q for q in range(g.size) for k in got[q] if k == (p, i)]
            if len(have) != len(set(have)): bad = bad or 'the particle at %s is sent to a rank twice: %s' % (say(x), have)
            elif not must <= set(have): bad = bad or 'the particle at %s is sent to the ranks %s instead of %s' % (say(x), have, sorted(must))
            elif not set(have) <= may: bad = bad or 'the particle at %s is sent to the ranks %s instead of %s' % (say(x), have, sorted(must))
            else: C.rep.ok('%s: particle' % C.name)
    if bad: C.rep.violation('%s: delivery' % C.name, bad)


def D01(C):
    C.rep.rule('GridND.decompose, the counting and filling loop gridnd_fill and Layout.exchange are abstractly interpreted on all ranks of a bounded family of grids (one to three axes, empty domains, repeated and missing owners, more or fewer '
               'domains than ranks, periodic or not). The positions are abstract: one symbol with a range for each interval between the places where the set of overlapped domains can change, over three periods, '
               'and the edges themselves. The identifiers which arrive are compared with the ranks owning a domain the particle overlaps; where it only touches a domain both answers are accepted. '
               'Edges, position, smoothing length and translation are also left symbolic: one scenario for each order of the edges and of the two ends of the particle (up to three domains per axis, some empty; up to three turns around the box), shown for all values in that order.')
    C.rep.assumptions.append('edges, smoothing lengths and assignments are a bounded family of exact numbers; exact arithmetic; touching domains are not judged')
    rnd = random.Random(3)
    for g in grids(C.thorough):
        for s in smoothings(g, C.thorough):
            chunks = [None] + ([3] if s[0] == F(1, 10) else [])
            for chunk in chunks:
                for kind in ['plain'] + (['transform', 'scalar', 'columns'] if s[0] == F(6, 5) and chunk is None else []):
                    deliver(C, g, s, chunk, kind, share(positions(g, s, rnd, 3 if C.thorough else 1), g.size, rnd, empty=chunk is None and kind != 'columns'))
    everywhere(C)


def deliver(C, g, s, chunk, kind, pos):
    def go():
        n = [len(p) for p in pos]

        def both(I, r):
            G = g.make(I)
            x = mkpos(I, 'x%d_' % r, pos[r], 2 if kind == 'columns' else 0)
            if not pos[r]: x = I.new(np.empty((0, g.ndim), dtype=object), 'f8')
            kw = dict(smoothing=I.asarr([v for v in s]) if len(set(s)) > 1 else s[0])
            if kind == 'transform':
                x = I.binop('/', I.binop('-', x, 3), 2)
                kw['transform'] = P.Native(lambda I, y: I.binop('+', I.binop('*', y, 2), 3), 'transform')
            L = I.call(I.getattr(G, 'decompose'), [x], kw)
            return I.call(I.getattr(L, 'exchange'), [mkcol(I, 'id%d' % r, n[r])], {})
        out, err = allranks(C, g.size, both, chunk=chunk)
        if failed(C, out, err, 'decompose'): return
        judge(C, g, s, arrivals(C, g, out, pos, n), pos)
    C.scen('%s: smoothing %s%s%s' % (g, ' '.join(map(str, s)), ', %d particles per chunk' % chunk if chunk else '', '' if kind == 'plain' else ', ' + kind), go)


CHECKS['D01'] = D01


def arguments(C):
    """decompose leaves positions, smoothing lengths and the grid as they are (P03)"""
    rnd = random.Random(5)
    for g in grids(False):
        if g.ndim == 1 and g.name != 'edges 0 1 2.5 4': continue
        s = [F(6, 5)] + [F(1, 2)] * (g.ndim - 1)
        pos = share(positions(g, s, rnd), g.size, rnd)

        def go():
            changed = set()

            def same(a, b): return not isnum(a) or isinstance(a, (Unknown, Gate)) or V.akey(a) == V.akey(b)

            def both(I, r):
                G = g.make(I)
                x = mkpos(I, 'x%d_' % r, pos[r])
                kw = dict(smoothing=I.asarr(list(s)))
                held = [('positions', x), ('smoothing lengths', kw['smoothing'])] + [(k, G.attrs[k]) for k in ('DomainAssign', 'DomainDegenerate', 'shape')]
                held += [('edges', e) for e in I.iterate(G.attrs['edges'])]
                old = [(what, a, a.data.copy()) for what, a in held if isinstance(a, P.Arr)]
                I.call(I.getattr(G, 'decompose'), [x], kw)
                for what, a, o in old:
                    if not all(same(u, v) for u, v in zip(a.data.ravel(), o.ravel())): changed.add('%s are changed by decompose' % what)
                    else: C.rep.ok('%s: %s' % (C.name, what))
            out, err = allranks(C, g.size, both)
            for e in err:
                if e is not None: raise e if not isinstance(e, P.AbsRaise) else Unsupported(str(e))
            for w in sorted(changed): C.rep.violation('%s: arguments' % C.name, w)
        C.scen('GridND.decompose on %s' % g, go)


# ------------------------------------------------------------------ all edges, positions and smoothing lengths

class Axis:
    """edges, position and smoothing of one axis as sums of positive symbols, for one order of the edges and of the
    ends of the particle. empty: numbers of the empty domains; at = 'n' (a point within domain n), 'en' (on an edge) or
    (l, r, turns): the ends are within the domains l and r (-1, n: outside), turns periods apart"""
    def __init__(self, d, n, empty, periodic, at, flip=False, big='last'):
        self.n, self.periodic, self.name = n, periodic, '%d domains%s' % (n, ', %s empty' % sorted(empty) if empty else '')
        g = iter(range(1000))
        new = lambda: V.var('g%d_%d' % (d, next(g)), positive=True)
        add = lambda *a: a[0] if len(a) == 1 else V.binop('+', add(*a[:-1]), a[-1])
        point = not isinstance(at, tuple)
        ends = {}
        if point:
            if at[0] != 'e': ends.setdefault(int(at), []).append('x')
        else:
            l, r, turns = at
            for q, c in ((r, 'r'), (l, 'l')) if flip else ((l, 'l'), (r, 'r')): ends.setdefault(q, []).append(c)
        pts = {}
        below = ends.get(-1, [])
        e = [0 if periodic else V.var('e%d' % d)]
        x = e[0]
        for c in reversed(below):
            x = V.binop('-', x, new())
            pts[c] = x
        for i in range(n + 1):
            x = e[-1]
            if i in empty:
                e.append(x)
                continue
            inner = ends.get(i, []) if i < n or not periodic else []
            for c in inner:
                x = add(x, new())
                pts[c] = x
            if i < n:
                w = new()
                if not point and periodic and at[2] % 2:
                    # whether l + r exceeds the period decides the place of the centre: make one domain wide enough
                    if big == 'last' and i == self.lastslot(n, empty): w = add(w, pts['l'], pts['r'])
                e.append(add(x, w))
        self.edges = e
        L = e[-1]
        if point:
            x = pts['x'] if at[0] != 'e' else e[int(at[1:])]
            self.s = 0
            self.must = self.cover(int(at), int(at), empty) if at[0] != 'e' else self.cover(*[self.after(int(at[1:]), empty)] * 2, empty)
        else:
            r = add(pts['r'], V.binop('*', turns, L)) if turns else pts['r']
            x = V.binop('/', add(pts['l'], r), 2)
            self.s = V.binop('/', V.binop('-', r, pts['l']), 2)
            if turns == 0: self.must = self.cover(at[0], at[1], empty)
            elif turns == 1: self.must = self.cover(at[0], n - 1, empty) | self.cover(0, at[1], empty)
            else: self.must = self.cover(0, n - 1, empty)
        if periodic: x = add(x, V.binop('*', V.var('k%d' % d, isint=True), L))
        self.x = x
        self.what = '%s, %s' % (self.name, 'a point %s' % ('in domain %s' % at if at[0] != 'e' else 'on edge %s' % at[1:]) if point else
                                'from domain %d to %d%s%s' % (at[0], at[1], ', %d turns' % at[2] if periodic else '', ', ends exchanged' if flip else ''))

    def lastslot(self, n, empty): return max(i for i in range(n) if i not in empty)

    def after(self, k, empty):
        """the domain which starts on an edge"""
        if self.periodic and all(i in empty for i in range(k, self.n)): k = 0
        while k in empty: k += 1
        return k

    def cover(self, l, r, empty): return {i for i in range(self.n) if l <= i <= r and i not in empty}


def axes(d, n, periodic, points=False):
    """all orders of the edges and of the ends of a particle"""
    out = []
    for k in range(2 ** n - 1):
        empty = {i for i in range(n) if k >> i & 1}
        full = [i for i in range(n) if i not in empty]
        for i in full: out.append((d, n, empty, periodic, str(i)))
        for i in range(n + 1):
            if i == n and not periodic: continue
            if not periodic and all(j in empty for j in range(i, n)): continue
            out.append((d, n, empty, periodic, 'e%d' % i))
        if points: continue
        slots = full if periodic else [-1] + full + [n]
        for l in slots:
            for r in slots:
                for turns in ((0, 1, 2, 3) if periodic else (0,)):
                    if turns == 0 and l > r: continue
                    out.append((d, n, empty, periodic, (l, r, turns)))
                    if l == r and turns > 0: out.append((d, n, empty, periodic, (l, r, turns), True))
    return out


def symbolic(C, ax, owners, size, what, act, judge):
    def go():
        def both(I, r):
            A = [Axis(*a) for a in ax]
            m = I.module('pmesh.domain').env
            ed = []
            for a in A:
                e = I.asarr(a.edges)
                e.dtype = np.dtype('f8')
                ed.append(e)
            kw = dict(comm=I.world, periodic=ax[0][3])
            if owners is not None:
                kw['DomainAssign'] = I.asarr(list(owners))
                kw['DomainAssign'].dtype = np.dtype('i4')
            G = I.call(m['GridND'], [I.register(ed)], kw)
            x = np.empty((1 if r == 0 else 0, len(A)), dtype=object)
            if r == 0: x[0] = [a.x for a in A]
            return act(I, r, G, I.new(x, 'f8'), A), A
        out, err = allranks(C, size, both)
        if failed(C, out, err, what): return
        judge([(I, r) for I, (r, _) in out], out[0][1][1])
    V.reset()
    A = [Axis(*a) for a in ax]
    C.scen('all edges and positions, %speriodic, %s%s: %s' % ('' if ax[0][3] else 'not ', what, '' if owners is None else ', owners %s' % list(owners), '; '.join(a.what for a in A)), go)


def everywhere(C):
    rnd = random.Random(11)
    for periodic in (True, False):
        types = [(a,) for n in ((1, 2, 3, 4) if C.thorough else (1, 2, 3)) for a in axes(0, n, periodic)]
        for k in range(600 if C.thorough else 100):
            nd = rnd.choice([2, 2, 3])
            types.append(tuple(rnd.choice(axes(d, rnd.choice([1, 2, 3] if nd == 2 else [1, 2]), periodic)) for d in range(nd)))
        for t in types:
            shape = [a[1] for a in t]
            n = int(np.prod(shape))
            size = rnd.choice([n, max(1, n - 1), min(3, n)]) if n <= 4 else rnd.choice([2, 3])
            owners = None if rnd.random() < 0.4 else [rnd.randrange(size) for _ in range(n)]
            own = owners if owners is not None else default(n, size)

            def judge(out, A, own=own, shape=shape):
                want = sorted({own[int(np.ravel_multi_index(j, shape))] for j in np.ndindex(*shape) if all(j[d] in a.must for d, a in enumerate(A))})
                have = []
                for q, (I, ident) in enumerate(out):
                    e = elems(I, ident)
                    for v in e.data.ravel():
                        if V.akey(v) != V.akey(V.var('id0_0')): raise Unsupported('received element %s' % repr(v)[:60])
                        have.append(q)
                if have != want: C.rep.violation('%s: delivery' % C.name, 'the particle is sent to the ranks %s instead of %s' % (have, want))
                else: C.rep.ok('%s: particle' % C.name)

            def act(I, r, G, x, A):
                s = [a.s for a in A]
                L = I.call(I.getattr(G, 'decompose'), [x], dict(smoothing=I.asarr(s) if len(s) > 1 else s[0]))
                return I.call(I.getattr(L, 'exchange'), [mkcol(I, 'id%d' % r, 1 if r == 0 else 0)], {})
            symbolic(C, t, owners, size, '%d ranks' % size, act, judge)


# ------------------------------------------------------------------ D03 : ownership

def owners(C, g, outs):
    """the assignment the grids report"""
    got = []
    for r, (I, G) in enumerate(outs):
        a = elems(I, I.getattr(G, 'DomainAssign'))
        row = []
        for e in a.data.ravel():
            e = I.resolve(e)
            if not isinstance(e, (int, np.integer)):
                if 'uninit' in repr(e): C.rep.violation('%s: owners' % C.name, 'a domain has no owner: the assignment is not set')
                raise Unsupported('owner %s' % repr(e)[:60])
            row.append(int(e))
        got.append(row)
    for row in got:
        if len(row) != g.n or min(row) < 0 or max(row) >= g.size:
            C.rep.violation('%s: owners' % C.name, 'the owners are %s' % row)
            return None
        if row != got[0]:
            C.rep.violation('%s: owners' % C.name, 'the ranks disagree: %s and %s' % (got[0], row))
            return None
    return got[0]


def flag(I, e):
    e = I.resolve(e)
    if isinstance(e, B):
        if e.g == V.ALG.dd.T: return True
        if e.g == V.ALG.dd.F: return False
    if isinstance(e, (bool, np.bool_)): return bool(e)
    if isinstance(e, (int, np.integer)) and e in (0, 1): return bool(e)
    raise Unsupported('primary: %s' % repr(e)[:60])


def D03(C):
    C.rep.rule('GridND.__init__, load, loadbalance, isprimary, decompose and uniform are abstractly interpreted on all ranks for a bounded family of grids; positions are symbols with a range for each interval between the edges, '
               'over three periods, and the edges themselves. Exactly the rank the domain of a position is assigned to holds it primary, each position is counted once in its domain, and after every load balancing (of the counted loads and of given ones) '
               'the queries agree with the new assignment. For all edges and positions, with as many as three domains per axis, the same is shown with symbolic edges, one scenario per order of the position and the edges.')
    C.rep.assumptions.append('grids and loads of the histories are a bounded family of exact numbers; exact arithmetic')
    rnd = random.Random(5)
    for g in grids(C.thorough):
        for chunk in (None, 3):
            for tr in ((False, True) if chunk is None else (False,)):
                history(C, g, share(inside(g, positions(g, [F(0)] * g.ndim, rnd, 3 if C.thorough else 1)), g.size, rnd, empty=tr), chunk, tr, rnd)
    pointwise(C)
    uniforms(C)


def inside(g, pos): return [p for p in pos if g.domain(p) is not None]


def history(C, g, pos, chunk, tr, rnd):
    loads = [rnd.randint(0, 9) for _ in range(g.n)]
    gamma = rnd.choice([1, 2, 3])

    def go():
        n = [len(p) for p in pos]

        def both(I, r):
            G = g.make(I)
            x = mkpos(I, 'x%d_' % r, pos[r]) if pos[r] else I.new(np.empty((0, g.ndim), dtype=object), 'f8')
            kw = {}
            if tr:
                x = I.binop('/', I.binop('-', x, 3), 2)
                kw['transform'] = P.Native(lambda I, y: I.binop('+', I.binop('*', y, 2), 3), 'transform')
            call = lambda m, *a, **k: I.call(I.getattr(G, m), list(a), k)
            out = []

            def look():
                a = I.asarr(I.getattr(G, 'DomainAssign'))
                a = I.new(a.data.copy(), a.dtype)
                L = call('decompose', x, **kw)
                out.append((a, call('isprimary', x, **kw), I.call(I.getattr(L, 'exchange'), [mkcol(I, 'id%d' % r, n[r])], {}), call('load', x, gamma=gamma, **kw)))
            look()
            call('loadbalance', out[0][3])
            look()
            a = I.asarr(list(loads))
            a.dtype = np.dtype('f8')
            call('loadbalance', a)
            look()
            return out
        out, err = allranks(C, g.size, both, chunk=chunk)
        if failed(C, out, err, 'history'): return
        for k, when in enumerate(('at first', 'after load balancing', 'after load balancing again')):
            own = ownersof(C, g, [(I, h[k][0]) for I, h in out])
            if own is None: return
            bad = None
            for p in range(g.size):
                for i, x in enumerate(pos[p]):
                    d = g.domain(x)
                    I, h = out[p]
                    f = flag(I, elems(I, h[k][1]).data[i])
                    if f != (own[d] == p): bad = bad or 'the position %s in domain %d of rank %d is %sprimary on rank %d %s' % (say(x), d, own[d], '' if f else 'not ', p, when)
                    else: C.rep.ok('%s: primary' % C.name)
            got = arrivals(C, g, [(I, h[k][2]) for I, h in out], pos, n)
            for q in range(g.size):
                want = sorted((p, i) for p in range(g.size) for i, x in enumerate(pos[p]) if own[g.domain(x)] == q)
                if sorted(got[q]) != want: bad = bad or 'rank %d gets the particles (rank, number) %s instead of %s %s' % (q, sorted(got[q]), want, when)
                else: C.rep.ok('%s: delivered' % C.name)
            count = [0] * g.n
            for row in pos:
                for x in row: count[g.domain(x)] += 1
            for I, h in out:
                a = elems(I, h[k][3])
                want = np.array([c ** gamma for c in count], dtype=object)
                C.samearr('load %s' % when, I.new(a.data.reshape(-1), a.dtype), want)
            if bad:
                C.rep.violation('%s: ownership' % C.name, bad)
                return
    C.scen('%s: ownership%s%s' % (g, ', %d particles per chunk' % chunk if chunk else '', ', transform' if tr else ''), go)


def ownersof(C, g, arrs):
    return owners(C, g, [(_Fixed(I, a), None) for I, a in arrs])


class _Fixed:
    """an analysis whose grid reports a recorded assignment"""
    def __init__(self, I, a): self.I, self.a = I, a
    def getattr(self, G, name): return self.a
    def resolve(self, v): return self.I.resolve(v)


def pointwise(C):
    rnd = random.Random(13)
    for periodic in (True, False):
        types = [(a,) for n in ((1, 2, 3, 4) if C.thorough else (1, 2, 3)) for a in axes(0, n, periodic, points=True)]
        for k in range(120 if C.thorough else 30):
            nd = rnd.choice([2, 2, 3])
            types.append(tuple(rnd.choice(axes(d, rnd.choice([1, 2, 3] if nd == 2 else [1, 2]), periodic, points=True)) for d in range(nd)))
        for t in types:
            shape = [a[1] for a in t]
            n = int(np.prod(shape))
            size = rnd.choice([n, max(1, n - 1), min(3, n)]) if n <= 4 else rnd.choice([2, 3])
            own = None if rnd.random() < 0.4 else [rnd.randrange(size) for _ in range(n)]

            def judge(out, A, size=size, shape=shape, n=n):
                class g: pass
                g.n, g.size = n, size
                o = ownersof(C, g, [(I, a) for I, (a, _, _) in out])
                if o is None: return
                d = [k for k, j in enumerate(np.ndindex(*shape)) if all(j[q] in a.must for q, a in enumerate(A))]
                have = [q for q, (I, (_, f, _)) in enumerate(out) if flag(I, elems(I, f).data[0])]
                if have != [o[d[0]]]: C.rep.violation('%s: primary' % C.name, 'the position in domain %d of rank %d is primary on the ranks %s' % (d[0], o[d[0]], have))
                else: C.rep.ok('%s: primary' % C.name)
                for I, (_, _, l) in out:
                    C.samearr('load', I.new(elems(I, l).data.reshape(-1), 'f8'), np.array([int(k == d[0]) for k in range(n)], dtype=object))

            def act(I, r, G, x, A):
                one = I.new(np.array([[a.x for a in A]], dtype=object), 'f8')
                return I.asarr(I.getattr(G, 'DomainAssign')), I.call(I.getattr(G, 'isprimary'), [one], {}), I.call(I.getattr(G, 'load'), [x], {})
            symbolic(C, t, own, size, 'ownership, %d ranks' % size, act, judge)


def uniforms(C):
    boxes = [[1, 1, 1], [F(1, 10)] * 3, [1000] * 3, [1, 2, 2], [1, 10, 10], [1, 100, 100], [3], [F(1, 4)], [2, 5], [F(1, 3), F(1, 7)], [1, 1000, F(1, 1000)], [4, 4, 1]]
    for box in boxes:
        for size in ((1, 2, 3, 4, 5, 6, 7, 8, 12, 27) if not C.thorough else range(1, 41)):
            def go():
                I = M.interp(size, 0)
                I.exactv = True
                C.E = type('E', (), dict(I=I))()
                m = I.module('pmesh.domain').env
                b = I.asarr([int(x) if F(x).denominator == 1 else x for x in box])
                b.dtype = np.dtype('f8')
                try: G = I.call(I.getattr(m['GridND'], 'uniform'), [b], dict(comm=I.world))
                except P.AbsRaise as e:
                    C.rep.violation('%s: grid' % C.name, 'raises %s' % e)
                    return
                n = 1
                for d, e in enumerate(I.resolve(I.getattr(G, 'edges'))):
                    e = elems(I, e)
                    v = list(e.data)
                    if any(isinstance(x, (S, B, Unknown, Gate)) for x in v): raise Unsupported('edges')
                    if len(v) < 2:
                        C.rep.violation('%s: grid' % C.name, 'there is no domain along axis %d (edges %s)' % (d, [fl(x) for x in v]))
                        return
                    if v[0] != 0 or abs(F(v[-1]) - F(box[d])) > F(box[d]) / 10 ** 12 or any(not a < b for a, b in zip(v[:-1], v[1:])):
                        C.rep.violation('%s: grid' % C.name, 'the domains along axis %d do not tile the box (edges %s)' % (d, [fl(x) for x in v]))
                        return
                    n *= len(v) - 1
                if n > size: C.rep.violation('%s: grid' % C.name, '%d domains for %d ranks' % (n, size))
                else: C.rep.ok('%s: grid' % C.name)
            C.scen('uniform grid of the box %s on %d ranks' % (' x '.join(map(str, box)), size), go)


CHECKS['D03'] = D03


# ------------------------------------------------------------------ D04 : the domains of a mesh

def blocks(n, p):
    """edges of the parts of n points on p processes, as of the transforms"""
    b = -(-n // p)
    return [min(k * b, n) for k in range(p + 1)]


def meshes(thorough):
    """mesh, process mesh, order of the ranks in it"""
    r = [((4, 6), (2,), None), ((4, 6), (4,), None), ((3, 5), (4,), None), ((2, 3), (4,), None), ((1, 4), (3,), None), ((4, 4), (4,), (2, 0, 3, 1)), ((5, 4), (4,), (3, 1, 0, 2)),
         ((4, 6, 4), (2, 2), None), ((4, 6, 4), (2, 3), None), ((4, 6, 4), (2, 3), 'F'), ((4, 6, 4), (3, 2), (5, 2, 0, 3, 1, 4)), ((5, 5, 4), (4, 1), None), ((5, 5, 4), (1, 4), None),
         ((2, 3, 4), (4, 1), None), ((2, 3, 4), (1, 4), None), ((2, 2, 2), (3, 2), None), ((3, 1, 4), (2, 2), (3, 2, 1, 0)), ((5, 5, 5), (3, 4), 'F'), ((8, 8, 8), (1, 1), None), ((6, 4, 2), (6, 1), None)]
    if thorough:
        rnd = random.Random(11)
        for k in range(60):
            np_ = rnd.choice([(2,), (3,), (5,), (2, 2), (3, 2), (2, 3), (1, 4), (4, 2), (3, 3), (1, 5)])
            n = int(np.prod(np_))
            r.append((tuple(rnd.randint(1, 9) for _ in range(len(np_) + 1)), np_, tuple(rnd.sample(range(n), n)) if rnd.random() < .6 else None))
    return r


def D04(C):
    C.rep.rule('ParticleMesh.__init__ is abstractly interpreted on all ranks for a bounded family of meshes and process meshes (slabs and pencils, ranks in any order, meshes smaller than the process mesh, so that ranks store nothing), with the partition of the transforms as '
               'each rank sees it and the gathered values of all ranks. The arguments of GridND are those of the domains: its edges are the edges of the parts in configuration space, each part which is not empty is assigned to the rank that stores it, on all ranks alike, '
               'parts which are empty to any rank there is, and the grid is periodic.')
    C.rep.assumptions.append('a rank without mesh points sees the start 0, as with the installed transforms; the last axis is not distributed and its edge is that of the padded array')
    from pychecks4 import foreign, table, keyof
    for Nm, np_, order in meshes(C.thorough):
        for dt, reuse in (('f8', False), ('c16', False), ('f8', True)):
            def go():
                size, nd = int(np.prod(np_)), len(Nm)
                perm = list(range(size)) if order is None else list(order) if order != 'F' else [int(np.ravel_multi_index(np.unravel_index(r, np_, order='F'), np_)) for r in range(size)]
                last = Nm[-1] if dt == 'c16' else 2 * (Nm[-1] // 2 + 1)
                edges = [blocks(n, p) for n, p in zip(Nm, np_)] + [[0, last]]
                block = [[int(i) for i in np.unravel_index(perm[r], np_)] + [0] for r in range(size)]
                st = [[edges[d][block[r][d]] for d in range(nd)] for r in range(size)]
                sh = [[edges[d][block[r][d] + 1] - edges[d][block[r][d]] if d < nd - 1 else Nm[d] for d in range(nd)] for r in range(size)]
                st = [s if 0 not in h else [0] * nd for s, h in zip(st, sh)]
                old, got = [], []
                for turn in range(4):
                    sent, got = [], []
                    for r in range(size):
                        E = M.Env(dtype=dt, size=size, ndim=nd, Nm=Nm, rank=r, np_=list(np_), fresh=turn == 0 and r == 0,
                                  penv=dict(ishape=tuple(sh[r]), istart=tuple(st[r]), iedges=[list(e) for e in edges]))
                        I = E.I
                        C.E = E
                        if reuse:
                            t = [e for e in I.events if e.kind == 'cache.set'][0].args['value']
                            I.cachehit, I.cached = 'given', lambda key: t
                        I.sent, I.received = [], [[foreign(I, v) for v in row] for row in old]
                        n0 = len(I.events)
                        I.call(E.m['ParticleMesh'], [I.register(list(Nm))], dict(BoxSize=I.register(list(E.L)), comm=I.world, dtype=dt, np=I.register(list(np_))))
                        ev = [e for e in I.events[n0:] if e.kind == 'GridND']
                        if len(ev) != 1: raise Unsupported('%d grids of domains' % len(ev))
                        got.append((I, ev[0]))
                        sent.append(I.sent)
                    new = [table(sent, k) for k in range(min(len(x) for x in sent))]
                    if [[keyof(v) for v in x] for x in new] == [[keyof(v) for v in x] for x in old]: break
                    old = new
                else: raise Unsupported('values of the ranks do not settle')
                for r, (I, e) in enumerate(got): meshdomain(C, I, e, r, size, nd, edges, block, sh)
            C.scen('domains of the mesh %s on %s processes%s, %s%s' % ('x'.join(map(str, Nm)), 'x'.join(map(str, np_)), '' if order is None else ' in the order %s' % (order,), dt, ', plans reused' if reuse else ''), go)


def meshdomain(C, I, e, r, size, nd, edges, block, sh):
    names = dict(zip(('edges', 'comm', 'periodic', 'DomainAssign'), e.args['args'][1:]))
    names.update(e.args['kw'])
    per = I.resolve(names.get('periodic', True))
    C.require('periodic on rank %d' % r, isinstance(per, (bool, int, np.bool_)) and bool(per), 'the grid of the domains is not periodic')
    C.require('communicator on rank %d' % r, I.resolve(names.get('comm')) is I.world, 'the domains are those of another communicator')
    ed = [elems(I, x) for x in I.iterate(names['edges'])]
    if len(ed) != nd:
        C.rep.violation('%s: axes on rank %d' % (C.name, r), '%d axes instead of %d' % (len(ed), nd))
        return
    for d in range(nd):
        x = concrete(ed[d])
        # the only domain along the last axis may reach to the end of the mesh or of the padded array
        ok = x == edges[d] if d < nd - 1 else len(x) == 2 and x[0] == 0
        C.require('edges of axis %d on rank %d' % (d, r), ok, 'the edges are %s instead of %s' % (x, edges[d]))
    own = I.resolve(names.get('DomainAssign'))
    shape = [len(x) - 1 for x in edges]
    own = concrete(elems(I, own)) if own is not None else list(range(size))
    if len(own) != size:
        C.rep.violation('%s: assignment on rank %d' % (C.name, r), '%d domains are assigned instead of %d' % (len(own), size))
        return
    for q in range(size):
        k = int(np.ravel_multi_index(block[q], shape))
        if 0 in sh[q]: C.require('empty domain %d on rank %d' % (k, r), own[k] in range(size), 'is assigned to %s' % own[k])
        else: C.require('domain %d on rank %d' % (k, r), own[k] == q, 'is assigned to rank %s, but rank %d stores this part of the mesh' % (own[k], q))


def concrete(a):
    r = []
    for x in np.ravel(a.data):
        if isinstance(x, (S, B, Unknown, Gate)): raise Unsupported('domains: %s' % repr(x)[:60])
        r.append(int(x) if F(x).denominator == 1 else x)
    return r


CHECKS['D04'] = D04
