"""Load balancing"""
import itertools
import random
from fractions import Fraction as F
from math import gcd
from functools import reduce

import numpy as np

import pyval as V
from pyval import S, B, Gate, Unknown, Unsupported
import pyflow as P
import pymodel as M

CHECKS = {}


class Split(BaseException):
    """the sign of a linear form is not the same everywhere in the cone; its values on the rays"""
    def __init__(self, values): self.values = values


class Cone:
    """the interior of a cone of loads: sums of its rays with positive factors. forms: the linear forms which are not negative"""
    def __init__(self, rays, forms): self.rays, self.forms = rays, forms

    def values(self, f): return [sum(a * b for a, b in zip(f, r)) for r in self.rays]

    def parts(self, values):
        """where the form is positive, negative and zero"""
        pos = [k for k, v in enumerate(values) if v > 0]
        neg = [k for k, v in enumerate(values) if v < 0]
        zero = [r for r, v in zip(self.rays, values) if v == 0]
        null = [frozenset(i for i, f in enumerate(self.forms) if sum(a * b for a, b in zip(f, r)) == 0) for r in self.rays]
        new = []
        for p in pos:
            for n in neg:
                common = null[p] & null[n]
                if any(common <= null[k] for k in range(len(null)) if k not in (p, n)): continue
                r = [values[p] * b - values[n] * a for a, b in zip(self.rays[p], self.rays[n])]
                g = reduce(gcd, r)
                new.append(tuple(x // g for x in r))
        wall = sorted(set(zero + new))
        f = self.form(values)
        g = tuple(-x for x in f)
        for side, h in ((pos, f), (neg, g)):
            rays = sorted(set([self.rays[k] for k in side] + wall))
            if any(r[-1] for r in rays): yield Cone(rays, self.forms + [h])
        if any(r[-1] for r in wall): yield Cone(wall, self.forms + [f, g])

    def form(self, values):
        """the linear form with these values on the rays"""
        n = len(self.rays[0])
        A = [[F(x) for x in r] + [F(v)] for r, v in zip(self.rays, values)]
        piv, row = [], 0
        for c in range(n):
            k = next((i for i in range(row, len(A)) if A[i][c]), None)
            if k is None: continue
            A[row], A[k] = A[k], A[row]
            A[row] = [x / A[row][c] for x in A[row]]
            for i in range(len(A)):
                if i != row and A[i][c]: A[i] = [x - A[i][c] * y for x, y in zip(A[i], A[row])]
            piv.append(c)
            row += 1
        if any(r[n] for r in A[row:]): raise Unsupported('a comparison which is not linear in the loads')
        f = [F(0)] * n
        for i, c in enumerate(piv): f[c] = A[i][n]
        d = reduce(lambda a, b: a * b // gcd(a, b), [x.denominator for x in f])
        return tuple(int(x * d) for x in f)

    def sign(self, f):
        v = self.values(f)
        if all(x == 0 for x in v): return 0
        if all(x >= 0 for x in v): return 1
        if all(x <= 0 for x in v): return -1
        raise Split(v)

    def point(self, f=None):
        """loads within the cone, where the form is positive if it can be"""
        v = self.values(f) if f else [0] * len(self.rays)
        w = [1 if x <= 0 else 1 + sum(abs(y) for y in v) for x in v]
        return [sum(a * b for a, b in zip(w, c)) for c in zip(*self.rays)]


class Balance:
    def __init__(self, n, size):
        self.n, self.size, self.uses, self.funcs = n, size, 0, set()
        self.I = None

    def start(self):
        self.I = I = M.interp(self.size, 0)
        I.exactv = True
        self.cls = I.module('pmesh.domain').env['GridND']
        self.t = []
        self.uses = 0

    def run(self, cone, rank, again):
        """the owners of the domains for all loads of the cone"""
        if self.I is None or self.uses > 100: self.start()
        self.uses += 1
        I = self.I
        while len(self.t) < len(cone.rays): self.t.append(V.var('t%d' % len(self.t), positive=True))
        ids = {next(iter(x.p))[0][0]: k for k, x in enumerate(self.t)}

        def split(p):
            v = [F(0)] * len(cone.rays)
            for m, c in p.items():
                if m == ():
                    v = [x + V.ALG.dd.value(c) * r[self.n] for x, r in zip(v, cone.rays)]
                    continue
                if len(m) != 1 or m[0][1] != 1 or ids.get(m[0][0], 99) >= len(v) or not V.ALG.dd.isterm(c): raise Unsupported('a comparison which is not linear in the loads')
                v[ids[m[0][0]]] = V.ALG.dd.value(c)
            if all(x == 0 for x in v): return 0
            if all(x >= 0 for x in v): return 1
            if all(x <= 0 for x in v): return -1
            d = reduce(lambda a, b: a * b // gcd(a, b), [x.denominator for x in v])
            raise Split([int(x * d) for x in v])
        L = []
        for i in range(self.n):
            x = 0
            for t, r in zip(self.t, cone.rays):
                if r[i]: x = V.binop('+', x, V.binop('*', r[i], t))
            L.append(x)
        e = I.asarr([0] + [1 + i * i for i in range(self.n)])
        e.dtype = np.dtype('f8')
        a = I.new(np.array(L + [None], dtype=object)[:-1], 'f8')
        depth = len(I.frames)
        try:
            G = I.call(self.cls, [I.register([e])], dict(comm=I.world, periodic=True))
            if again:
                b = I.new(np.array([again(i) for i in range(self.n)], dtype=object), 'f8')
                I.call(I.getattr(G, 'loadbalance'), [b], {})
            V.ALG.splitter = split
            I.call(I.getattr(G, 'loadbalance'), [a], {})
            V.ALG.splitter = None
            A = [I.resolve(x) for x in I.asarr(I.getattr(G, 'DomainAssign')).data]
            if any(not isinstance(x, (int, np.integer)) for x in A) or len(A) != self.n: raise Unsupported('owners of the domains')
        except BaseException:
            self.funcs |= set(I.funcs)
            self.I = None
            raise
        finally:
            V.ALG.splitter = None
        self.funcs |= set(I.funcs)
        return [int(x) for x in A]


def greedy(cone, n, m):
    """load of the heaviest rank under the greedy rule, as a linear form"""
    unit = lambda i: tuple(int(i == k) for k in range(n + 1))
    sub = lambda a, b: tuple(x - y for x, y in zip(a, b))
    left = list(range(n))
    order = []
    while left:
        b = left[0]
        for i in left[1:]:
            if cone.sign(sub(unit(i), unit(b))) > 0: b = i
        order.append(b)
        left.remove(b)
    load = [(0,) * (n + 1)] * m
    for i in order:
        b = 0
        for r in range(1, m):
            if cone.sign(sub(load[r], load[b])) < 0: b = r
        load[b] = tuple(x + y for x, y in zip(load[b], unit(i)))
    b = load[0]
    for x in load[1:]:
        if cone.sign(sub(x, b)) > 0: b = x
    return b


def X05(C):
    C.rep.rule('GridND.loadbalance is abstractly interpreted with symbolic loads which are sums of the rays of a cone with positive factors; where the order of two sums of loads differs within a cone it is parted, so that the cones cover all loads which are not negative, '
               'equal and vanishing ones included. For every cone and every rank the load of the rank is not larger than that of the heaviest rank when the domains, from the heaviest to the lightest, go to the rank with the least load: an inequality of linear forms on the rays.')
    C.rep.assumptions.append('up to six domains and four ranks; exact arithmetic; the default assignment, or an assignment of an earlier balancing, is balanced')
    rnd = random.Random(7)
    plan = [(2, 1, None), (3, 2, None), (4, 2, None), (4, 3, None), (5, 2, 40), (5, 3, 40), (5, 4, 20), (6, 3, 8), (2, 2, None), (2, 3, None)]
    if C.thorough: plan = plan[:4] + plan[8:] + [(5, 2, None), (5, 3, None), (5, 4, None), (6, 2, 60), (6, 3, 60), (6, 4, 60), (7, 3, 20)]
    for n, m, orders in plan:
        # the last coordinate is the unit of the loads
        units = [tuple(int(i == k) for k in range(n + 1)) for i in range(n + 1)]
        if orders is None: cones = [Cone(list(f) + units[n:], units) for k in range(1, n + 1) for f in itertools.combinations(units[:n], k)]
        else:
            # some orders of the loads, each with its faces
            cones = []
            for _ in range(orders):
                o = list(range(n))
                rnd.shuffle(o)
                rays = [tuple(int(i in o[:k]) for i in range(n + 1)) for k in range(1, n + 1)]
                cones += [Cone(sorted(rays) + units[n:], units)] + [Cone(sorted(rnd.sample(rays, rnd.randint(1, n - 1))) + units[n:], units)]
        b = Balance(n, m)
        for again, when in ((None, ''), (lambda i: (3 * i * i) % 7, ', balanced before'), (lambda i: 5 * (i == 0), ', balanced before with one load'), (lambda i: 0, ', balanced before without loads')):
            for c in cones if again is None or orders is None and C.thorough else rnd.sample(cones, min(len(cones), 4)):
                C.scen('%d domains, %d ranks, loads %s%s' % (n, m, ' + '.join('(%s)' % ' '.join(map(str, r[:n])) for r in c.rays if any(r[:n])), when), lambda: balanced(C, b, c, n, m, again))
        C.funcs |= b.funcs


def balanced(C, b, cone, n, m, again):
    todo, n_ = [cone], 0
    while todo:
        c = todo.pop()
        n_ += 1
        if n_ > 800 or len(c.rays) > 60: raise Unsupported('too many cones')
        try:
            A = b.run(c, 0, again)
            if any(not 0 <= r < m for r in A):
                C.rep.violation('%s: owner' % C.name, 'a domain is assigned to rank %s of %d' % ([r for r in A if not 0 <= r < m][0], m))
                return
            top = greedy(c, n, m)
        except Split as s:
            todo += list(c.parts(s.values))
            continue
        C.rep.count('cones', 1)
        for r in range(m):
            f = tuple(int(o == r) - t for o, t in zip(A, top)) + (0,)
            v = c.values(f)
            if all(x <= 0 for x in v): continue
            w = c.point(f)
            w = [F(x, w[n]) for x in w[:n]]
            mine = sum(x for x, o in zip(w, A) if o == r)
            best = sum(x * t for x, t in zip(w, top))
            if mine <= best: raise Unsupported('witness')
            C.rep.violation('%s: heaviest rank' % C.name, 'with the loads %s the domains go to the ranks %s: rank %d carries %s, more than %s of the heaviest rank of the greedy rule' % ([str(x) for x in w], A, r, mine, best))
            return
        C.rep.ok('%s: cone (%s)' % (C.name, '), ('.join(' '.join(map(str, r)) for r in c.rays)))


CHECKS['X05'] = X05
