"""White noise: what the generator does with abstract random numbers, and what the Python layer hands to it"""
import itertools
import math
import multiprocessing
import os
import random
from fractions import Fraction

import numpy as np

from cfront import BuildError, ParseError
from cval import Alg, Eval, Unsupported as CUnsupported
import noise
from noise import NoiseModule, NoiseRun, Geom, Aborted, rngatoms
from report import REPO
import pyval as V
from pyval import Unsupported, Unknown
import pyflow as P
import pymodel as M
import pynumpy as N
from pynoise import pyhalf

NM = None
DEEPER = False


def cuts(n, k):
    """k consecutive parts of n"""
    e = [n * i // k for i in range(k + 1)]
    return [(a, b - a) for a, b in zip(e, e[1:])]


MESHES = [(2, 2, 2), (4, 4, 4), (4, 4, 6), (6, 6, 4), (5, 5, 5), (4, 4, 5), (4, 6, 4), (6, 4, 4), (3, 5, 6), (2, 7, 4), (1, 4, 3), (4, 1, 2), (3, 3, 1)]
DEEP = [(8, 8, 8), (7, 7, 7), (10, 10, 6), (9, 4, 8), (4, 9, 7), (12, 12, 4), (6, 6, 12), (8, 3, 5)]
OTHERS = [(8, 8, 8), (7, 7, 7), (6, 8, 5), (4, 4, 4)]
PARTS = [(2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2, 1), (1, 2, 2), (3, 1, 1), (1, 3, 1), (2, 3, 1), (1, 2, 3)]


def geoms(mesh):
    """the parts of a mesh, of the full and of the compressed spectrum"""
    n2h = mesh[2] // 2 + 1
    for last in (mesh[2], n2h):
        full = (mesh[0], mesh[1], last)
        yield Geom(mesh, (0, 0, 0), full)
        yield Geom(mesh, (0, 0, 0), full, axes=(1, 2, 0))
        yield Geom(mesh, (0, 0, 0), full, axes=(1, 0, 2))
        # each plane of the last axis alone, and in the thorough tier each row of the other axes
        alone = [(1, 1, last)] + ([(mesh[0], 1, 1), (1, mesh[1], 1)] if DEEPER else [])
        for p in PARTS + [a for a in alone if a not in PARTS and max(a) > 1]:
            if any(a > b for a, b in zip(p, full)): continue
            for blk in itertools.product(*[cuts(n, k) for n, k in zip(full, p)]):
                yield Geom(mesh, [b[0] for b in blk], [b[1] for b in blk], axes=(1, 2, 0) if p[2] > 1 else (0, 1, 2))
        for e in ((1, 0, 1), (1, 1, 0)):
            yield Geom(mesh, (0, 0, 0), [n * x for n, x in zip(full, e)])
    if mesh[0] > 1:
        # a rank without any row
        yield Geom(mesh, (mesh[0], 0, 0), (0, mesh[1], n2h))
        yield Geom(mesh, (1, 0, 0), (mesh[0] - 1, mesh[1], mesh[2]))


def run(alg, g):
    r = NoiseRun.__new__(NoiseRun)
    noise.CInterp.shared = alg
    try:
        NoiseRun.__init__(r, NM, g)
    finally:
        noise.CInterp.shared = None
    return r


def different(alg, p, q, need=1):
    """a definite difference of two normal forms: an assignment of the random numbers"""
    d = alg.sub(p, q)
    if not d: return None
    rnd = random.Random(5)
    hits = tot = 0
    for _ in range(12):
        b = Values(rnd)
        try:
            v = Eval(alg, b, None).poly(d)
        except (CUnsupported, ValueError, ZeroDivisionError, OverflowError):
            continue
        tot += 1
        if abs(float(v)) > 1e-9: hits += 1
    if hits: return True
    return 'undecided' if tot < 3 else False


class Values(object):
    """a value in (0, 1) for each random number, on demand"""
    def __init__(self, rnd, fixed=None):
        self.rnd, self.d = rnd, dict(fixed or {})

    def __contains__(self, k):
        return k[0] == 'rng' or k == ('seed',) or k in self.d

    def __getitem__(self, k):
        if k not in self.d:
            self.d[k] = Fraction(12345) if k == ('seed',) else Fraction(self.rnd.randint(1, 9999), 10000)
        return self.d[k]


def check(pid, mesh, unitary, elsize):
    out = []
    alg = Alg()
    tag = 'mesh %s, %s, %s precision' % (list(mesh), 'unitary' if unitary else 'Gaussian', 'double' if elsize == 16 else 'single')
    full = Geom(mesh, elsize=elsize, unitary=unitary)
    try:
        ref = run(alg, full)
    except Aborted:
        return [('bad', tag, 'the process is aborted for the whole mesh on one rank')]
    out.append(('count', 'geometries', 1))
    modes = list(itertools.product(*[range(n) for n in mesh]))
    R = {m: ref.mode(m) for m in modes}
    miss = [m for m in modes if R[m] is None]
    if miss:
        if pid != 'M03': out.append(('bad', tag, 'the mode %s of the full spectrum is not set (%d modes)' % (list(miss[0]), len(miss))))
        return out
    if pid == 'N01':
        bad = None
        n = 0
        for g in geoms(mesh):
            g.elsize, g.unitary = elsize, unitary
            try:
                r = run(alg, g)
            except Aborted:
                bad = bad or '%s: the process is aborted' % g
                continue
            out.append(('count', 'geometries', 1))
            for kind, t in r.it.problems:
                if kind in ('outside', 'seed'): bad = bad or '%s: %s' % (g, t)
            s = r.stray()
            if s: bad = bad or '%s: byte %d of the array, which belongs to no mode of the part, is written' % (g, s[0])
            for m in itertools.product(*[range(a, a + b) for a, b in zip(g.start, g.size)]):
                v = r.mode(m)
                n += 1
                if v is None:
                    bad = bad or '%s: the mode %s is not set' % (g, list(m))
                    break
                if v == R[m]: continue
                for c, (x, y) in zip(('real', 'imaginary'), zip(v, R[m])):
                    if x == y: continue
                    d = different(alg, x, y)
                    if d is True: bad = bad or '%s: the %s part of the mode %s is another function of the random numbers than on a single rank' % (g, c, list(m))
                    elif d == 'undecided': out.append(('undec', '%s: mode %s' % (g, list(m))))
            if bad: break
        if bad: out.append(('bad', tag, bad))
        else: out.append(('ok', '%s: the value of each mode is the same function of the seed in every part' % tag, n))
    elif pid == 'N02':
        bad = None
        conj = {m: tuple((n - x) % n for x, n in zip(m, mesh)) for m in modes}
        n = 0

        def ne(x, y):
            if x == y: return False
            d = different(alg, x, y)
            if d == 'undecided': out.append(('undec', tag))
            return d is True
        for m in modes:
            c = conj[m]
            n += 1
            if m == (0, 0, 0):
                if ne(R[m][0], {}) or ne(R[m][1], {}): bad = bad or 'the zero mode is not zero'
            elif c == m:
                if ne(R[m][1], {}): bad = bad or 'the mode %s is its own conjugate but not real' % list(m)
            else:
                if ne(R[m][0], R[c][0]): bad = bad or 'the real parts of the modes %s and %s are different functions of the random numbers' % (list(m), list(c))
                if ne(R[m][1], alg.neg(R[c][1])): bad = bad or 'the imaginary part of the mode %s is not minus that of %s' % (list(m), list(c))
        # amplitude and independence
        used = {}
        shapes = {}
        for m in modes:
            if m == (0, 0, 0): continue
            key = min(m, conj[m])
            if key != m: continue
            at = rngatoms(alg, R[m][0]) | rngatoms(alg, R[m][1])
            if conj[m] == m and unitary:
                for x in values(alg, R[m][0], 3):
                    if abs(abs(x) - 1) > 1e-9: bad = bad or 'the amplitude of the mode %s is %.6g instead of one' % (list(m), x)
                continue
            if not at:
                bad = bad or 'the mode %s does not depend on the seed' % list(m)
                continue
            for k in at:
                if k in used and used[k] != m: bad = bad or 'the modes %s and %s are made of the same random number' % (list(used[k]), list(m))
                used[k] = m
            if conj[m] == m: continue
            if unitary:
                for x, y in zip(values(alg, R[m][0], 4), values(alg, R[m][1], 4)):
                    if abs(x * x + y * y - 1) > 1e-9: bad = bad or 'the amplitude of the mode %s is %.6g instead of one' % (list(m), math.hypot(x, y))
            if len(shapes) < 4 or m[2] == 0 and len(shapes) < 6:
                shapes[m] = at
        for m, at in shapes.items():
            b = moments(alg, R[m], sorted(at, key=repr), unitary)
            if b == 'undecided': out.append(('undec', '%s: distribution of the mode %s' % (tag, list(m))))
            elif b: bad = bad or 'mode %s: %s' % (list(m), b)
            n += 1
        if bad: out.append(('bad', tag, bad))
        else: out.append(('ok', '%s: Hermitian, zero mean, amplitude, distinct random numbers' % tag, n))
    elif pid == 'N03':
        bad = None
        n = 0
        for other in OTHERS:
            g = Geom(other, elsize=elsize, unitary=unitary)
            try: r = run(alg, g)
            except Aborted:
                bad = bad or 'mesh %s: the process is aborted' % list(other)
                continue
            out.append(('count', 'geometries', 1))
            half = [(min(a, b) - 1) // 2 for a, b in zip(mesh, other)]
            for k in itertools.product(*[range(-h, h + 1) for h in half]):
                x, y = R[tuple(q % m for q, m in zip(k, mesh))], r.mode(tuple(q % m for q, m in zip(k, other)))
                n += 1
                if y is None:
                    bad = bad or 'mesh %s: the mode %s is not set' % (list(other), list(k))
                    break
                if x == y: continue
                for c, u, v in zip(('real', 'imaginary'), x, y):
                    if u == v: continue
                    d = different(alg, u, v)
                    if d is True: bad = bad or 'the %s part of the mode %s is another function of the random numbers than on the mesh %s' % (c, list(k), list(other))
                    elif d == 'undecided': out.append(('undec', '%s: mode %s' % (tag, list(k))))
        if bad: out.append(('bad', tag, bad))
        else: out.append(('ok', '%s: the modes shared with the meshes %s are the same functions of the seed' % (tag, ', '.join(str(list(o)) for o in OTHERS)), n))
    elif pid == 'M03':
        bad = None
        n = 0
        parts = [full] + list(geoms(mesh))
        for e in itertools.product((0, 1), repeat=3):
            # parts without cells along some of the axes
            parts += [Geom(mesh, (0, 0, 0), [n * x for n, x in zip(last, e)]) for last in (mesh, mesh[:2] + (mesh[2] // 2 + 1,))]
        for g in parts:
            g.elsize, g.unitary = elsize, unitary
            r = run(alg, g)
            out.append(('count', 'geometries', 1))
            n += len(r.it.heap)
            for kind, t in r.it.problems:
                if kind in ('released', 'leak'): bad = bad or '%s: %s' % (g, t)
        if bad: out.append(('bad', tag, bad))
        else: out.append(('ok', '%s: generators and tables released once' % tag, n))
    return out


def values(alg, p, n):
    rnd = random.Random(9)
    return [float(Eval(alg, Values(rnd), None).poly(p)) for _ in range(n)]


def moments(alg, v, at, unitary):
    """mean, variance and pseudo-variance over the random numbers, by quadrature of the closed form"""
    if len(at) not in (1, 2): return 'undecided'
    n = 24
    X = []
    for i in range(n):
        for j in range(n if len(at) > 1 else 1):
            b = Values(random.Random(1), dict(zip(at, (Fraction(2 * i + 1, 2 * n), Fraction(2 * j + 1, 2 * n)))))
            e = Eval(alg, b, None)
            X.append(complex(float(e.poly(v[0])), float(e.poly(v[1]))))
    m = sum(X) / len(X)
    s = sum(abs(x) ** 2 for x in X) / len(X)
    q = sum(x * x for x in X) / len(X)
    if abs(m) > 0.06: return 'the mean over the random numbers is %.3f%+.3fi instead of zero' % (m.real, m.imag)
    if abs(s - 1) > 0.06: return 'the mean square amplitude over the random numbers is %.3f instead of one' % s
    if abs(q) > 0.06: return 'the real and imaginary parts do not have the same variance'
    if not unitary:
        s4 = sum(abs(x) ** 4 for x in X) / len(X)
        if abs(s4 - 2) > 0.4: return 'the fourth moment of the amplitude is %.3f, that of a Gaussian is 2' % s4
    return None


def _job(a):
    pid, mesh, unitary, elsize = a
    try:
        return check(pid, mesh, unitary, elsize)
    except CUnsupported as e:
        return [('undec', 'mesh %s unitary %s elsize %s: %s' % (list(mesh), unitary, elsize, e))]
    except (KeyError, ValueError, AttributeError, TypeError, IndexError, RecursionError, ZeroDivisionError, OverflowError) as e:
        if os.environ.get('VERIF_DEBUG'):
            import traceback
            traceback.print_exc()
        return [('undec', 'mesh %s unitary %s elsize %s: analysis error %r' % (list(mesh), unitary, elsize, e))]


def chalf(C, pid):
    global NM, DEEPER
    DEEPER = C.thorough
    try:
        NM = NoiseModule(REPO)
    except (BuildError, ParseError, OSError, KeyError) as e:
        C.rep.undec('the C generator: %s' % e)
        return
    meshes = MESHES + (DEEP if C.thorough else [])
    jobs = [(pid, m, u, e) for m in meshes for u in (0, 1) for e in (16, 8) if C.thorough or e == 16 or m in MESHES[:6]]
    jobs.sort(key=lambda j: -j[1][0] * j[1][1] * j[1][2])
    with multiprocessing.get_context('fork').Pool(8, maxtasksperchild=4) as pool:
        for res in pool.imap_unordered(_job, jobs, chunksize=1):
            for r in res:
                if r[0] == 'ok': C.rep.ok(r[1], r[2])
                elif r[0] == 'undec': C.rep.undec(r[1])
                elif r[0] == 'bad': C.rep.violation('_whitenoise: ' + r[1], r[2])
                else: C.rep.count(r[1], r[2])


def N01(C):
    C.rep.rule('The white noise generator is abstractly interpreted from the compiler IR with abstract random numbers (a value drawn is a symbol of the seed of its generator and the number of draws before it) for every part of a '
               'family of meshes: the normal form of the value of each mode must be the one found when a single rank holds the whole spectrum, and the Python layer must hand over the global mesh, the local start, shape and strides.')
    chalf(C, 'N01')
    pyhalf(C, 'N01')


def N02(C):
    C.rep.rule('As for N01; for the full spectrum the normal forms of conjugate modes are compared, self-conjugate modes must have a zero imaginary part, distinct modes must be made of distinct random numbers, and the closed form of '
               'the amplitude is integrated over the random numbers.')
    chalf(C, 'N02')
    pyhalf(C, 'N02')


def N03(C):
    C.rep.rule('As for N01; the normal forms of the modes with the same wave number are compared between meshes of different sizes: larger, odd and unequal sides.')
    chalf(C, 'N03')


CHECKS = {'N01': N01, 'N02': N02, 'N03': N03}
