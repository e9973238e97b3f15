"""The scale invariant index"""
import itertools
import random
from fractions import Fraction as F

import numpy as np

import pyval as V
from pyval import S, B, Gate, Unknown, Unsupported, isnum
import pyflow as P
import pymodel as M
import lin
from report import REPO
from cval import Eval
from invcheck import InvModule, Mode, patterns, inners

CHECKS = {}


# ---- polynomials of one variable, as coefficients

def upoly(alg, p, var):
    """coefficients of an ungated polynomial in one atom"""
    out = {}
    for m, c in p.items():
        if not alg.dd.isterm(c) or any(x != var for x, e in m) or any(e < 0 for x, e in m): raise Unsupported('index %s' % alg.show(p))
        out[sum(e for x, e in m)] = alg.dd.value(c)
    return {k: v for k, v in out.items() if v}


def padd(*ps):
    out = {}
    for p in ps:
        for k, v in p.items(): out[k] = out.get(k, 0) + v
    return {k: v for k, v in out.items() if v}


def pneg(p): return {k: -v for k, v in p.items()}


def pmul(*ps):
    r = {0: F(1)}
    for p in ps:
        t = {}
        for i, a in r.items():
            for j, b in p.items(): t[i + j] = t.get(i + j, 0) + a * b
        r = {k: v for k, v in t.items() if v}
    return r


def pval(p, x): return sum(v * x ** k for k, v in p.items())


def compose(alg, f, U):
    r, q = {}, alg.C(1)
    for k in range(max(f, default=0) + 1):
        if f.get(k): r = alg.add(r, alg.scale(q, f[k]))
        q = alg.mul(q, U)
    return r


def box(ndim, cmask, s):
    """number of modes whose coordinates are at most s, a polynomial of u"""
    return pmul(*[padd(s, {0: F(1)}) if cmask >> d & 1 else padd(pmul(s, {0: F(2)}), {0: F(1)}) for d in range(ndim)])


def text(p): return ' + '.join('%s u^%d' % (v, k) for k, v in sorted(p.items())) or '0'


def masks(ndim, thorough):
    out = [0, 1 << (ndim - 1)]
    if thorough: out += [m for m in range(1 << ndim) if m not in out]
    return out


def start(C, nm, ndim, pattern, inner, cmask):
    """the number of modes before a cap, as a polynomial of u = shell - 1, or None if the mode has no index"""
    Mo = Mode(nm, ndim, pattern, inner, cmask, False)
    a = Mo.alg
    v = Mo.value
    if a.const(v) == -1: return Mo, None
    if len(Mo.it.subs) != 1 or Mo.it.subs[0][5] != a.dd.T: raise Unsupported('the problem within the cap')
    p = a.sub(v, Mo.it.subs[0][4])
    if any(a.atoms[x][0] == 'sub' for m in p for x, e in m): raise Unsupported('the index of the problem within the cap')
    return Mo, p


def caps(ndim): return [(tuple(None if c == '*' else c for c in p), [d for d in range(ndim) if p[d] == '*']) for p in patterns(ndim)]


def missing(pattern, inner, cmask): return any(cmask >> d & 1 and c == '-' for d, c in enumerate(pattern)) or any(cmask >> d & 1 and s == '-' for d, s in inner)


def X03(C):
    C.rep.rule('pmesh_get_invariant_index is interpreted from the compiler IR with a symbolic shell, once for each face, edge and corner of the shell (and each order and sign of the other coordinates); the index is a polynomial of the shell '
               'plus the index of the smaller problem within, which by induction numbers its modes from zero. The starts of the caps must follow each other without gap or overlap: each start plus the number of modes of the cap is the next start, '
               'as an identity of polynomials, from the number of modes of the smaller box to that of the larger.')
    C.rep.assumptions.append('one to %d axes; integer overflow is not modelled' % (5 if C.thorough else 4))
    nm = InvModule(REPO)
    rnd = random.Random(1)
    for ndim in range(1, 6 if C.thorough else 5):
        for cmask in masks(ndim, C.thorough and ndim < 4):
            def zero():
                Mo = Mode(nm, ndim, [None] * ndim, [], cmask, False, zero=True)
                v = Mo.alg.const(Mo.value)
                if v is None: raise Unsupported('index of the origin')
                if v != 0: C.rep.violation('%s: origin' % C.name, 'the index of the zero mode is %s' % v)
                else: C.rep.ok('%s: origin' % C.name)
            tag = '%d axes, %s' % (ndim, 'mask %s' % bin(cmask) if cmask else 'not compressed')
            C.scen(tag + ', zero mode', zero)
            C.scen(tag, lambda: tiles(C, nm, ndim, cmask, rnd))


def collision(C, nm, ndim, pattern, inner, cmask, what):
    """two modes of one cap with the same index, or a mode without, where the index is not the start of the cap plus the index within"""
    if missing(pattern, inner, cmask): return False
    Mo = Mode(nm, ndim, pattern, inner, cmask, False)
    a = Mo.alg
    if len(Mo.it.subs) != 1: return False
    n, x, mask, ml, sub, g, site = Mo.it.subs[0]
    names = [k for k in a.atoms if isinstance(k, tuple) and k[0] == 'v']
    for u in range(3):
        base = {k: F(u if k == ('v', 'u') else 0) for k in names}
        seen = {}
        top = int(pval(box(n, mask, {1: F(1)}), Eval(a, base).poly(Mo.u)))
        for i in range(min(top, 30)):
            base[('sub', 0)] = F(i)
            v = Eval(a, dict(base)).poly(Mo.value)
            if v < 0 or v in seen:
                C.rep.violation('%s: %s' % (C.name, what), 'of the modes of the cap the one numbered %d within has %s (shell %s, %s)' % (i, 'no index' if v < 0 else 'the index %s as the one numbered %d' % (v, seen[v]), u + 1, site))
                return True
            seen[v] = i
    return False


def tiles(C, nm, ndim, cmask, rnd):
    u = {1: F(1)}
    s = {1: F(1), 0: F(1)}
    found = []
    unknown = False
    for pattern, axes in caps(ndim):
        f = None
        what = '(%s)' % ', '.join({'+': 's', '-': '-s', None: '*'}[c] for c in pattern)
        orders = list(inners(axes))
        if not C.thorough and len(orders) > 48 or len(orders) > 400: orders = orders[:1] + rnd.sample(orders[1:], 12)
        for inner in orders:
            C.rep.count('caps', 1)
            try: Mo, p = start(C, nm, ndim, pattern, inner, cmask)
            except Unsupported:
                if collision(C, nm, ndim, pattern, inner, cmask, what): return
                unknown = True
                break
            a = Mo.alg
            if missing(pattern, inner, cmask):
                if p is None: C.rep.ok('%s: %s is not stored' % (C.name, what))
                else: C.rep.violation('%s: %s' % (C.name, what), 'a mode on the negative side of the compressed axis has an index')
                continue
            if p is None:
                C.rep.violation('%s: %s' % (C.name, what), 'the mode with inner coordinates of signs %s has no index' % ''.join(x[1] for x in inner))
                return
            if f is None:
                names = [x for m in Mo.u.keys() for x, e in m]
                uu = [x for x in names if a.atoms[x] == ('v', 'u')][0]
                f = fit(a, p, Mo, uu)
            if f is None or a.key(a.sub(p, compose(a, f, Mo.u))) != a.key({}):
                C.rep.violation('%s: %s' % (C.name, what), 'the index of the first mode of the cap depends on the place within the cap')
                return
            # the smaller problem
            n, x, mask, ml, sub, g, site = Mo.it.subs[0]
            if n != len(axes): C.rep.violation('%s: %s' % (C.name, what), 'the problem within the cap has %d axes instead of %d (%s)' % (n, len(axes), site))
            keys = {a.key(Mo.x[d]): d for d in axes}
            got = [keys.get(a.key(v)) for v in x]
            if None in got or sorted(got) != sorted(axes):
                C.rep.violation('%s: %s' % (C.name, what), 'the mode within the cap is (%s) instead of (%s) (%s)' % (', '.join(a.show(v) for v in x), ', '.join(a.show(Mo.x[d]) for d in axes), site))
                return
            if [mask >> k & 1 for k in range(n)] != [cmask >> d & 1 for d in got]:
                C.rep.violation('%s: %s' % (C.name, what), 'the compressed axes within the cap are %s instead of %s (%s)' % (bin(mask), [cmask >> d & 1 for d in got], site))
                return
            C.rep.ok('%s: %s' % (C.name, what))
        if f is not None:
            # modes of the cap: |inner| <= u
            found.append((f, box(len(axes), sum((cmask >> d & 1) << k for k, d in enumerate(axes)), u), what))
    if unknown: raise Unsupported('the index of the problem within the cap')
    at = F(1000003)
    found.sort(key=lambda t: pval(t[0], at))
    end, prev = box(ndim, cmask, u), 'the smaller box'
    for f, size, what in found:
        gap = padd(f, pneg(end))
        if gap:
            for v in range(0, 50):
                if pval(gap, F(v)): break
            C.rep.violation('%s: order' % C.name, 'in shell %d the indices of the cap %s start at %s instead of %s, where %s ends' % (v + 1, what, pval(f, F(v)), pval(end, F(v)), prev))
            return
        C.rep.ok('%s: %s follows %s' % (C.name, what, prev))
        end, prev = padd(f, size), what
    if padd(end, pneg(box(ndim, cmask, s))):
        C.rep.violation('%s: order' % C.name, 'the last index of a shell is %s instead of %s' % (text(end), text(box(ndim, cmask, s))))
    else: C.rep.ok('%s: the shell is filled' % C.name)


def fit(a, p, Mo, uu):
    """the polynomial f with p = f(u + chain): the terms in u alone when the other coordinates are at their least"""
    q = {m: c for m, c in p.items() if all(x == uu for x, e in m)}
    f = upoly(a, q, uu)
    k = a.dd.value(Mo.u[()]) if () in Mo.u else 0      # least value of the chain: shift back
    if k:
        r, w = {}, {0: F(1)}
        for e in range(max(f, default=0) + 1):
            if f.get(e): r = padd(r, pmul({0: f[e]}, w))
            w = pmul(w, {1: F(1), 0: -F(k)})
        f = r
    return f


CHECKS['X03'] = X03


# ------------------------------------------------------------------ I01

def I01(C):
    C.rep.rule('get_index of invariant.py and _invariant.pyx is abstractly interpreted with symbolic meshes and modes inside, on the negative Nyquist plane and outside of the mesh: the index is -1 outside and otherwise a function of the mode, '
               'the number of axes and the compression alone. pmesh_get_invariant_index is interpreted from the compiler IR with a symbolic shell and a symbolic maximum length: the result is the index without maximum length where it is smaller, else -1.')
    C.rep.assumptions.append('one to four axes; integer overflow is not modelled')
    rnd = random.Random(2)
    for nd in (1, 2, 3, 4):
        cases = [[(c, s, odd) for c in ('in', 'out') for s in '+-' for odd in (0, 1)] + [('nyq', '-', 0), ('zero', '+', 0), ('zero', '+', 1)]] * nd
        pts = list(itertools.product(*cases)) if nd < 3 else [tuple(rnd.choice(c) if rnd.random() < 0.5 else rnd.choice([x for x in c if x[0] in ('in', 'nyq')]) for c in cases) for _ in range(200 if C.thorough else 60)]
        for pt in pts:
            for compressed in (True, False):
                for ml in ((None, 'ml', 0) if nd > 1 or C.thorough else (None, 'ml', 0, 7)):
                    if nd > 1 and not C.thorough and rnd.random() < 0.5: continue
                    point(C, nd, pt, compressed, ml, rnd)
    nm = InvModule(REPO)
    for ndim in (1, 2, 3, 4) if C.thorough else (1, 2, 3):
        for cmask in masks(ndim, C.thorough):
            C.scen('%d axes, mask %s, maximum length: zero mode' % (ndim, bin(cmask)), lambda: cutzero(C, nm, ndim, cmask))
            for pattern, axes in caps(ndim):
                orders = list(inners(axes))
                if len(orders) > 8: orders = orders[:1] + rnd.sample(orders[1:], 3)
                for inner in orders:
                    C.scen('%d axes, mask %s, maximum length: mode (%s), others %s' % (ndim, bin(cmask), ', '.join({'+': 's', '-': '-s', None: '*'}[c] for c in pattern), ' '.join('%s%d' % (s, d) for d, s in inner)),
                           lambda: cut(C, nm, ndim, pattern, inner, cmask))


def point(C, nd, pt, compressed, ml, rnd):
    shape = rnd.choice(['flat', 'flat', 'grid'])
    scalar = len(set(o for _, _, o in pt)) == 1 and all(c in ('zero',) for c, _, _ in pt)
    dt = rnd.choice(['i8', 'i4', 'i8'])

    def go():
        I = M.interp(1, 0)
        I.pointers = True
        C.E = type('E', (), dict(I=I))()
        m = I.module('pmesh.invariant').env
        x, N, good = [], [], True
        eff = []
        for d, (c, s, odd) in enumerate(pt):
            v = lambda n: V.var('%s%d' % (n, d), isint=True, lo=F(0))
            plus = lambda *t: t[0] if len(t) == 1 else V.binop('+', plus(*t[:-1]), t[-1])
            sg = lambda t: t if s == '+' else V.binop('-', 0, t)
            if c == 'zero':
                h = plus(v('b'), 0 if odd else 1)
                e = 0
            elif c == 'in':
                a = plus(v('a'), 1)
                h = plus(a, v('b'), 0 if odd else 1)
                e = sg(a)
            elif c == 'nyq':
                h = plus(v('a'), 1)
                e = V.binop('-', 0, h)
            else:
                h = plus(v('a'), 0 if odd else 1)
                e = sg(plus(h, v('b'), 1))
            x.append(e)
            eff.append(h if c == 'nyq' else e)
            N.append(plus(V.binop('*', 2, h), odd) if odd else V.binop('*', 2, h))
            if c == 'out': good = False
        # a second mode, which is always there
        other = [0] * nd
        rows = [x, other] if shape == 'flat' else [[x, other], [other, x]]
        a = I.new(np.array(rows, dtype=object), dt)
        n = I.asarr(N)
        n.dtype = np.dtype('i8')
        kw = dict(compressed=compressed)
        mlv = -1
        if ml is not None:
            mlv = V.var('ml', isint=True, lo=F(0)) if ml == 'ml' else ml
            kw['maxlength'] = mlv
        r = I.call(m['get_index'], [a, n], kw)
        if not isinstance(r, P.Arr): raise Unsupported('index')
        f = lambda y: V.u('invariant', nd, *y, (1 << (nd - 1)) if compressed else 0, mlv, isint=True)
        w1, w2 = f(eff) if good else -1, f(other)
        want = [w1, w2] if shape == 'flat' else [[w1, w2], [w2, w1]]
        # the index of a mode which exists is not -1 unless it is cut
        exists = ml in (None, 'ml') and not (compressed and pt[-1][1] == '-' and pt[-1][0] != 'nyq')
        C.samearr('index', r, np.array(want, dtype=object), allowed=('invariant',) if exists else ())
    C.scen('get_index of %s, %s%s%s%s' % (' '.join('%s%s/%s' % (s, c, 'odd' if o else 'even') for c, s, o in pt), 'compressed' if compressed else 'not compressed', '' if ml is None else ', maximum length %s' % ml, '' if shape == 'flat' else ', grid of modes', ', ' + dt), go)


def cutzero(C, nm, ndim, cmask):
    Mo = Mode(nm, ndim, [None] * ndim, [], cmask, True, zero=True)
    a = Mo.alg
    judge(C, a, Mo, a.C(0), 'zero mode')


def cut(C, nm, ndim, pattern, inner, cmask):
    M0, p = start(C, nm, ndim, pattern, inner, cmask)
    Mo = Mode(nm, ndim, pattern, inner, cmask, True)
    a = Mo.alg
    if p is None:
        judge(C, a, Mo, None, 'mode which is not stored')
        return
    # the same polynomial in the other analysis
    q = {}
    for m, c in p.items():
        t = a.C(M0.alg.dd.value(c))
        for x, e in m:
            v = a.A(a.atom(M0.alg.atoms[x], isint=True, lo=F(0)))
            for _ in range(e): t = a.mul(t, v)
        q = a.add(q, t)
    sub = a.A(a.atom(('sub', 0), isint=True, lo=F(0)))
    judge(C, a, Mo, a.add(q, sub), 'index')


def judge(C, a, Mo, full, what):
    if full is None: want = a.C(-1)
    else: want = a.ite(a.ge0i(a.sub(full, Mo.ml)), a.C(-1), full)
    d = a.sub(Mo.value, want)
    if not d:
        C.rep.ok('%s: %s' % (C.name, what))
        return
    # a witness is looked for briefly, then a proof, then a witness again
    if witness(C, a, Mo, full, want, what, 4): return
    if a.zero(d) or lin.zero(a, d):
        C.rep.ok('%s: %s' % (C.name, what))
        return
    if not witness(C, a, Mo, full, want, what, 400): C.rep.undec('%s: %s' % (C.name, what))


def witness(C, a, Mo, full, want, what, tries):
    names = [k for k in a.atoms if isinstance(k, tuple) and k[0] in ('v', 'sub')]
    rnd = random.Random(3)
    for t in range(tries):
        base = {k: F(rnd.choice([0, 0, 1, 1, 2, 3])) for k in names}
        for k in names:
            if k == ('sub', 0):
                n, _, mask, _, _, _, _ = Mo.it.subs[0]
                ev = Eval(a, base)
                top = int(pval(box(n, mask, {1: F(1)}), ev.poly(Mo.u))) - 1
                base[k] = F(rnd.randint(0, max(top, 0)))
        mlk = [k for k in names if k == ('v', 'ml')]
        for j in range(3):
            if full is not None and mlk: base[mlk[0]] = max(F(0), Eval(a, base).poly(full) + rnd.choice([-2, -1, 0, 1, 2, 5, -5]))
            ev = Eval(a, base)
            try: g, w = ev.poly(Mo.value), ev.poly(want)
            except (Unsupported, ZeroDivisionError, KeyError): continue
            if g != w:
                C.rep.violation('%s: %s' % (C.name, what), 'with the maximum length %s the index is %s instead of %s (shell %s)' % (ev.poly(Mo.ml), g, w, ev.poly(Mo.s)))
                return True
    return False


CHECKS['I01'] = I01
