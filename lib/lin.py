"""A relational domain for guards: conjunctions of linear inequalities between
integers, with Fourier-Motzkin projection to detect empty conjunctions."""
from fractions import Fraction
import math

LIMIT = 300


def norm(c):
    """primitive integer form (tuple of ((m, int)...), constant) of sum c[m] m >= 0; None if trivially true, False if false"""
    den = 1
    for v in c.values():
        d = v.denominator
        if d != 1: den = den * d // math.gcd(den, d)
    g = 0
    out = []
    k = 0
    for m, v in c.items():
        if v == 0: continue
        i = int(v * den) if den != 1 else int(v)
        if m == ():
            k = i
            continue
        g = math.gcd(g, i)
        out.append((m, i))
    if not out: return None if k >= 0 else False
    out.sort()
    if g > 1:
        out = [(m, i // g) for m, i in out]
        k = k // g
    return tuple(out), k


CACHE = {}


def empty(cons):
    """True if there is no integer solution (False: do not know)"""
    best = {}
    for c in cons:
        n = norm(c)
        if n is None: continue
        if n is False: return True
        if n[0] not in best or n[1] < best[n[0]]: best[n[0]] = n[1]
    # independent groups of variables
    par = {}

    def find(x):
        while par[x] != x:
            par[x] = par[par[x]]
            x = par[x]
        return x
    for k in best:
        r = None
        for m, v in k:
            if m not in par: par[m] = m
            f = find(m)
            if r is None: r = f
            else: par[f] = r
    groups = {}
    for k, c in best.items(): groups.setdefault(find(k[0][0]), []).append((k, c))
    for g in groups.values():
        key = frozenset(g)
        r = CACHE.get(key)
        if r is None: r = CACHE[key] = empty1(dict(g))
        if r: return True
    return False


def empty1(best):
    while best:
        for k, c in best.items():
            o = best.get(tuple((m, -v) for m, v in k))
            if o is not None and c + o < 0: return True
        count = {}
        for k in best:
            for m, v in k:
                p, q = count.get(m, (0, 0))
                count[m] = (p + 1, q) if v > 0 else (p, q + 1)
        x = min(count, key=lambda m: (count[m][0] * count[m][1] - count[m][0] - count[m][1], m))
        pos, neg, new = [], [], {}
        for k, c in best.items():
            d = dict(k)
            v = d.get(x, 0)
            if v == 0: new[k] = c
            elif v > 0: pos.append((d, c))
            else: neg.append((d, c))
        if len(pos) * len(neg) + len(new) > LIMIT: return False
        for p, pc in pos:
            for n, nc in neg:
                a, b = -n[x], p[x]
                c = {m: a * v for m, v in p.items()}
                for m, v in n.items(): c[m] = c.get(m, 0) + b * v
                del c[x]
                c[()] = a * pc + b * nc
                t = norm(c)
                if t is None: continue
                if t is False: return True
                if t[0] not in new or t[1] < new[t[0]]: new[t[0]] = t[1]
        best = new
    return False


class Facts(object):
    """what is known of the atoms of an algebra"""
    def __init__(self, alg):
        self.alg = alg
        self.cache = {}

    def lin(self, p):
        """mono -> value of an ungated polynomial, or None"""
        dd = self.alg.dd
        if any(not dd.isterm(c) for c in p.values()): return None
        return {m: dd.value(c) for m, c in p.items()}

    def ofatom(self, a, depth=0):
        if a in self.cache: return self.cache[a]
        self.cache[a] = out = []
        A = self.alg
        x = ((a, 1),)
        lo, hi = A.bounds.get(a, (None, None))
        if lo is None and a in A.positive and A.isint[a]: lo = Fraction(1)
        if lo is not None: out.append({x: Fraction(1), (): -lo})
        if hi is not None: out.append({x: Fraction(-1), (): hi})
        k = A.atoms[a]
        h = getattr(A, 'hidep', {}).get(k)
        if h is not None:
            q = self.lin(h)
            if q is not None:
                c = dict(q)
                c[x] = c.get(x, 0) - 1
                out.append(c)
        if k[0] == 'floor':
            q = self.lin(dict(k[1]))
            if q is not None:
                den = 1
                for v in q.values(): den = den * v.denominator // math.gcd(den, v.denominator)
                ip = all(A.intmono(m) for m in q if m != ())
                c = {m: v * den for m, v in q.items()}
                c1 = dict(c)
                c1[x] = c1.get(x, 0) - den
                out.append(c1)
                c2 = {m: -v for m, v in c.items()}
                c2[x] = c2.get(x, 0) + den
                c2[()] = c2.get((), Fraction(0)) + den - (1 if ip else 0)
                out.append(c2)
        if k[0] == 'wrap':
            n = self.lin(dict(k[2]))
            out.append({x: Fraction(1), (): Fraction(0)})
            if n is not None:
                c = dict(n)
                c[x] = c.get(x, 0) - 1
                c[()] = c.get((), Fraction(0)) - 1
                out.append(c)
        return out

    def nonneg(self, a):
        lo = self.alg.bounds.get(a, (None, None))[0]
        return lo is not None and lo >= 0 or a in self.alg.positive

    def infeasible(self, lits):
        """lits: [(literal key, truth)]"""
        cons = []
        atoms = set()
        prods = set()
        for k, b in lits:
            if k[0] != 'ge': continue
            c = dict(k[1])
            if not b:
                c = {m: -v for m, v in c.items()}
                c[()] = c.get((), Fraction(0)) - 1
            cons.append(c)
        done = set()
        while True:
            todo = set(a for c in cons for m in c for a, e in m) - done
            for c in list(cons):
                for m in c:
                    # a product of numbers which are not negative
                    if m in prods or len(m) < 2 and (not m or m[0][1] == 1): continue
                    prods.add(m)
                    if all(e > 0 and self.nonneg(a) for a, e in m): cons.append({m: Fraction(1)})
            if not todo: break
            for a in todo:
                done.add(a)
                cons += self.ofatom(a)
            if len(cons) > LIMIT: break
        if not cons: return False
        return empty(cons)


def zero(alg, p, limit=20000):
    """is a gated polynomial zero on all feasible paths?  True or None"""
    dd = alg.dd
    F = Facts(alg)
    n = [0]
    for m, c in p.items():
        def walk(node, lits):
            n[0] += 1
            if n[0] > limit: return False
            d = dd.nodes[node]
            if d[0] == 't':
                return dd.value(node) == 0 or F.infeasible(lits)
            if lits and lits[-1][0][0] == 'ge' and F.infeasible(lits): return True
            k = dd.litname[d[0]]
            return walk(d[1], lits + [(k, False)]) and walk(d[2], lits + [(k, True)])
        if not walk(c, []): return None
    return True
