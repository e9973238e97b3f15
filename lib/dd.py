"""Decision diagrams with rational terminals (ADDs) over comparison literals.

A node is an int.  0/1-terminal diagrams are guards; other terminals are the
guarded rational coefficients of a polynomial.  Everything is hash-consed, so
equality of node ids is equality of the functions (for a fixed variable order,
which is the order in which literals are first met).
"""
from fractions import Fraction


class DD(object):
    def __init__(self):
        self.nodes = []            # ('t', Fraction) | (var, lo, hi)
        self.index = {}
        self.cache = {}
        self.litname = []          # var -> key
        self.litvar = {}
        self.F = self.term(0)
        self.T = self.term(1)

    # -- construction
    def term(self, c):
        key = ('t', Fraction(c))
        n = self.index.get(key)
        if n is None:
            n = len(self.nodes)
            self.nodes.append(key)
            self.index[key] = n
        return n

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        key = (v, lo, hi)
        n = self.index.get(key)
        if n is None:
            n = len(self.nodes)
            self.nodes.append(key)
            self.index[key] = n
        return n

    def lit(self, key):
        v = self.litvar.get(key)
        if v is None:
            v = len(self.litname)
            self.litname.append(key)
            self.litvar[key] = v
        return self.mk(v, self.F, self.T)

    def isterm(self, n):
        return self.nodes[n][0] == 't'

    def value(self, n):
        return self.nodes[n][1]

    def top(self, *ns):
        return min(self.nodes[n][0] for n in ns if self.nodes[n][0] != 't')

    def cof(self, n, v, b):
        x = self.nodes[n]
        if x[0] == v:
            return x[2] if b else x[1]
        return n

    # -- binary operations
    def apply(self, op, a, b):
        na, nb = self.nodes[a], self.nodes[b]
        ta, tb = na[0] == 't', nb[0] == 't'
        if op == '+':
            if ta and na[1] == 0: return b
            if tb and nb[1] == 0: return a
            if ta and tb: return self.term(na[1] + nb[1])
        elif op == '*':
            if ta:
                if na[1] == 0: return a
                if na[1] == 1: return b
            if tb:
                if nb[1] == 0: return b
                if nb[1] == 1: return a
            if ta and tb: return self.term(na[1] * nb[1])
        elif op == 'or':
            if a == self.T or b == self.T: return self.T
            if a == self.F: return b
            if b == self.F: return a
            if a == b: return a
        elif op == 'and':
            if a == self.F or b == self.F: return self.F
            if a == self.T: return b
            if b == self.T: return a
            if a == b: return a
        if b < a:
            a, b = b, a
        key = (op, a, b)
        r = self.cache.get(key)
        if r is None:
            v = self.top(a, b)
            r = self.mk(v, self.apply(op, self.cof(a, v, 0), self.cof(b, v, 0)),
                        self.apply(op, self.cof(a, v, 1), self.cof(b, v, 1)))
            self.cache[key] = r
        return r

    def AND(self, *xs):
        r = self.T
        for x in xs:
            r = self.apply('and', r, x)
        return r

    def OR(self, *xs):
        r = self.F
        for x in xs:
            r = self.apply('or', r, x)
        return r

    def NOT(self, a):
        key = ('not', a)
        r = self.cache.get(key)
        if r is None:
            n = self.nodes[a]
            if n[0] == 't':
                r = self.T if n[1] == 0 else self.F
            else:
                r = self.mk(n[0], self.NOT(n[1]), self.NOT(n[2]))
            self.cache[key] = r
        return r

    def ITE(self, g, a, b):
        if g == self.T: return a
        if g == self.F: return b
        if a == b: return a
        key = ('ite', g, a, b)
        r = self.cache.get(key)
        if r is None:
            v = self.top(g, a, b)
            r = self.mk(v, self.ITE(self.cof(g, v, 0), self.cof(a, v, 0), self.cof(b, v, 0)),
                        self.ITE(self.cof(g, v, 1), self.cof(a, v, 1), self.cof(b, v, 1)))
            self.cache[key] = r
        return r

    def restrict(self, f, c):
        """f simplified with the knowledge that c holds."""
        if c == self.T or self.isterm(f):
            return f
        if c == self.F:
            return f
        key = ('restrict', f, c)
        r = self.cache.get(key)
        if r is None:
            vf = self.nodes[f][0]
            vc = self.nodes[c][0]
            if vc < vf:
                r = self.restrict(f, self.OR(self.cof(c, vc, 0), self.cof(c, vc, 1)))
            else:
                c0, c1 = self.cof(c, vf, 0), self.cof(c, vf, 1)
                f0, f1 = self.cof(f, vf, 0), self.cof(f, vf, 1)
                if c0 == self.F:
                    r = self.restrict(f1, c1)
                elif c1 == self.F:
                    r = self.restrict(f0, c0)
                else:
                    r = self.mk(vf, self.restrict(f0, c0), self.restrict(f1, c1))
            self.cache[key] = r
        return r

    def implies(self, a, b):
        return self.AND(a, self.NOT(b)) == self.F

    def support(self, n, seen=None):
        out = set()
        stack = [n]
        seen = set()
        while stack:
            x = stack.pop()
            if x in seen: continue
            seen.add(x)
            d = self.nodes[x]
            if d[0] != 't':
                out.add(d[0])
                stack += [d[1], d[2]]
        return out

    def paths(self, n):
        """(assignment tuple, terminal value) of each path"""
        d = self.nodes[n]
        if d[0] == 't':
            yield (), d[1]
            return
        for b in (0, 1):
            for p, t in self.paths(d[1 + b]):
                yield ((d[0], b),) + p, t

    def assign(self, n, fn, memo=None):
        """replace variables whose truth fn(key) decides (True/False/None)"""
        if memo is None: memo = {}
        if n in memo: return memo[n]
        d = self.nodes[n]
        if d[0] == 't':
            r = n
        else:
            t = fn(self.litname[d[0]])
            if t is None:
                lo, hi = self.assign(d[1], fn, memo), self.assign(d[2], fn, memo)
                r = self.ITE(self.mk(d[0], self.F, self.T), hi, lo)
            else:
                r = self.assign(d[2] if t else d[1], fn, memo)
        memo[n] = r
        return r
