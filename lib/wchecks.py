"""Properties W01-W08: decided on the normal forms of the painter routines."""
import math
import multiprocessing
import os
import random
import time
import traceback
from fractions import Fraction
from itertools import product

from cfront import BuildError, ParseError
from cval import Alg, Num, Bool, Ptr, UNDEF, Unsupported, Eval
from cint import Interp
from report import Report, Broken, REPO
from winmodel import WindowModule, Cfg, Run

GENERIC = ['NEAREST', 'LINEAR', 'QUADRATIC', 'CUBIC']
TUNED = ['TUNED_NNB', 'TUNED_CIC', 'TUNED_TSC', 'TUNED_PCS']
PAIR = dict(zip(TUNED, GENERIC))
NATIVE = dict(NEAREST=1, LINEAR=2, QUADRATIC=3, CUBIC=4, TUNED_NNB=1, TUNED_CIC=2, TUNED_TSC=3, TUNED_PCS=4)
NJOBS = min(8, os.cpu_count() or 4)
WM = None
DEADLINE = None


def orders(ndim, full=False):
    out = [(0,) * ndim]
    for d in range(ndim):
        out.append(tuple(1 if i == d else 0 for i in range(ndim)))
    if full:
        out = list(product((0, 1), repeat=ndim))
    return out


def periods(ndim, full=False):
    if ndim == 1: return [(True,), (False,)]
    if full or ndim == 2: return list(product((True, False), repeat=ndim))
    return [(True,) * 3, (False,) * 3, (True, False, True), (False, True, False)]


# ------------------------------------------------------------ effects

class Effects(object):
    """offset -> guarded weight of one paint / readout"""

    def __init__(self):
        self.w = {}
        self.ty = set()
        self.bad = []
        self.undec = []

    def add(self, alg, off, p):
        k = alg.key(off)
        self.w[k] = alg.add(self.w.get(k, {}), p)


def paint_effects(run):
    alg, dd = run.alg, run.alg.dd
    acc = run.paint()
    E = Effects()
    E.acc = acc
    for a in acc:
        if a.kind != 'store' or a.obj != 'canvas': continue
        E.ty.add(repr(a.ty))
        if not isinstance(a.val, Num):
            E.bad.append((a, 'stores an undefined value'))
            continue
        for h, off in alg.split(a.off):
            g = alg.simp(dd.AND(h, a.guard))
            if g == dd.F: continue
            p = alg.psimp(alg.restrict(a.val.p, g))
            want = (alg.key(off), repr(a.ty))
            rest = {}
            found = {}
            stale = other = False
            for m, c in p.items():
                ms = [(x, e) for x, e in m if alg.atoms[x][0] == 'M']
                if not ms:
                    rest[m] = c
                    continue
                if len(ms) == 1 and ms[0][1] == 1 and len(m) == 1:
                    k = alg.atoms[ms[0][0]]
                    if (k[1], k[2]) == want:
                        alg.acc(found, (), c)
                        if k[3] != a.version: stale = True
                        continue
                other = True
            if other or alg.psimp(alg.restrict(alg.sub(found, alg.C(1)), g)):
                E.bad.append((a, 'the stored value is not the old value of the cell plus a weight'))
                continue
            if stale:
                E.undec.append('the old value of a cell is read before another store (%s)' % a.where())
            E.add(alg, off, alg.guard(g, rest))
    return E


def readout_effects(run):
    alg, dd = run.alg, run.alg.dd
    v, acc = run.readout()
    E = Effects()
    E.acc = acc
    if not isinstance(v, Num):
        E.bad.append((None, 'readout returns an undefined value'))
        return E
    for m, c in v.p.items():
        ms = [(x, e) for x, e in m if alg.atoms[x][0] == 'M']
        if len(ms) != 1 or ms[0][1] != 1:
            if alg.simp(c) == dd.F: continue
            E.bad.append((None, 'readout is not linear in the mesh'))
            continue
        k = alg.atoms[ms[0][0]]
        E.ty.add(k[2])
        rest = tuple(x for x in m if x != ms[0])
        E.add(alg, dict(k[1]), {rest: c})
    if any(a.kind == 'store' and a.obj == 'canvas' for a in acc):
        E.bad.append((next(a for a in acc if a.kind == 'store'), 'readout writes to the mesh'))
    return E


def massless(run, p):
    """p / mass, or None when p is not linear in the mass"""
    alg = run.alg
    out = {}
    for m, c in p.items():
        d = dict(m)
        if d.get(run.mass) != 1:
            if alg.simp(c) == alg.dd.F: continue
            return None
        del d[run.mass]
        out[tuple(sorted(d.items()))] = c
    return out


# ------------------------------------------------------------ witnesses

def base_assignment(rnd, ndim, far=True):
    b = {}
    for d in range(ndim):
        s = Fraction(rnd.choice([1, 2, 3, 5, 7]), rnd.choice([2, 4, 3, 1]))
        b[('fld', 'scale', d)] = s
        t = Fraction(rnd.randint(-30, 30), 8) + Fraction(rnd.randint(1, 99), 1009)
        b[('fld', 'translate', d)] = t
        g = Fraction(rnd.randint(-24, 32), 2) + Fraction(rnd.randint(1, 999), 2003)
        b[('pos', 'pos', d)] = (g - t) / s
        b[('fld', 'Nmesh', d)] = Fraction(rnd.randint(1, 9))
        b[('fld', 'size', d)] = Fraction(rnd.randint(1, 9))
    st = rnd.choice([8, 16])
    order = list(range(ndim))
    rnd.shuffle(order)
    for d in order:
        b[('fld', 'strides', d)] = Fraction(st)
        st = st * (int(b[('fld', 'size', d)]) + rnd.randint(1, 3))
    b[('fld', 'mass', 0)] = Fraction(rnd.randint(1, 99), 10)
    return b


def table_value(ev, k):
    if k[0] == 'tab':
        off = ev.poly(dict(k[2]))
        return _tabval(k[1], int(off))
    return None


_TAB = {}


def _tabval(name, off):
    n = name[2:]
    ty, init, const = WM.mod.globals[n]
    v = init
    s = WM.mod.size(ty.elt)
    i = off // s
    if v[0] == 'arr' and 0 <= i < len(v[1]) and v[1][i][0] == 'c': return v[1][i][1]
    return Fraction(0)


def describe(b, ndim):
    f = lambda k: str([round(float(b[('fld', k, d)]), 4) for d in range(ndim)])
    return 'pos=%s scale=%s translate=%s Nmesh=%s size=%s' % (
        [round(float(b[('pos', 'pos', d)]), 4) for d in range(ndim)], f('scale'), f('translate'), f('Nmesh'), f('size'))


def witness(alg, p, ndim, n=60, tol=0, extra=None, seed=7):
    rnd = random.Random(seed)
    for _ in range(n):
        b = base_assignment(rnd, ndim)
        if extra: extra(rnd, b)
        ev = Eval(alg, b, table_value)
        v = ev.poly(p)
        if abs(v) > tol: return b, v
    return None


# ------------------------------------------------------------ jobs

def run_jobs(fn, jobs, rep, procs=NJOBS):
    """fn(job) -> list of (kind, a, b); jobs run in forked workers"""
    with multiprocessing.get_context('fork').Pool(procs, maxtasksperchild=16) as pool:
        for job, res in pool.imap_unordered(_call, [(fn.__name__, j) for j in jobs], chunksize=1):
            for r in res:
                if r[0] == 'ok': rep.ok(r[1], r[2] if len(r) > 2 else 1)
                elif r[0] == 'undec': rep.undec(r[1])
                elif r[0] == 'bad': rep.violation(r[1], r[2])
                elif r[0] == 'count': rep.count(r[1], r[2])


def _call(x):
    name, job = x
    try:
        return job, globals()[name](job)
    except Unsupported as e:
        return job, [('undec', '%s: %s' % (job, e))]
    except (KeyError, ValueError, AttributeError, TypeError, IndexError, AssertionError, ZeroDivisionError, RecursionError, OverflowError) as e:
        return job, [('undec', '%s: analysis error %r at %s' % (job, e, traceback.format_exc().strip().split('\n')[-3:-1]))]


def site(run):
    """the routine which performs the accesses, to name a finding"""
    fns = []
    for a in run.it.accesses:
        if a.obj == 'canvas':
            f = next((s for s in a.stack if 'tuned' in s or 'generic' in s), a.fn).lstrip('@')
            if f not in fns: fns.append(f)
    return ', '.join(fns[:4]) or 'pmesh_painter_paint'


def compare(rep, what, run, alg, A, B, ndim, tol=0):
    """A, B: offset key -> weight; returns results"""
    out = []
    und = 0
    for k in set(A) | set(B):
        d = alg.psimp(alg.sub(A.get(k, {}), B.get(k, {})))
        if not d or alg.zero(d): continue
        w = witness(alg, d, ndim)
        if w is None:
            und += 1
            continue
        b, v = w
        return [('bad', site(run), '%s: cell at offset [%s]: weights differ by %.6g at %s' % (
            what, alg.show(dict(k)), float(v), describe(b, ndim)))]
    if und:
        # cells may be written in different but equal forms: compare by address
        r = compare_eval(alg, A, B, ndim)
        if r is not None:
            return [('bad', site(run), '%s: %s' % (what, r))]
        return [('undec', '%s: %d cells in different forms' % (what, und))]
    return [('ok', what, len(set(A) | set(B)))]


def compare_eval(alg, A, B, ndim, n=40):
    rnd = random.Random(11)
    for _ in range(n):
        b = base_assignment(rnd, ndim)
        ev = Eval(alg, b, table_value)
        tot = {}
        for X, s in ((A, 1), (B, -1)):
            for k, p in X.items():
                v = ev.poly(p)
                if v == 0: continue
                o = ev.poly(dict(k))
                tot[o] = tot.get(o, 0) + s * v
        for o, v in tot.items():
            if abs(v) > Fraction(1, 10 ** 9): return 'weights at offset %d differ by %.6g at %s' % (int(o), float(v), describe(b, ndim))
    return None


def diff_maps(rep, what, run, alg, A, B, ndim):
    """equality of two weight maps, first by normal form, else by evaluation of the normal forms"""
    keys = set(A) | set(B)
    left = []
    for k in keys:
        d = alg.psimp(alg.sub(A.get(k, {}), B.get(k, {})))
        if d and not alg.zero(d): left.append(k)
    if not left: return [('ok', what, len(keys))]
    r = compare_eval(alg, {k: A[k] for k in left if k in A}, {k: B[k] for k in left if k in B}, ndim)
    if r is not None:
        return [('bad', site(run), '%s: %s' % (what, r))]
    return [('undec', '%s: %d of %d cells have different normal forms' % (what, len(left), len(keys)))]


def strmap(run, E):
    out = {}
    for k, p in E.w.items():
        q = massless(run, p)
        if q is None: return None
        out[k] = q
    return out


# W01
def job_w01(cfg):
    run = Run(WM, cfg)
    alg = run.alg
    P = paint_effects(run)
    R = readout_effects(run)
    res = []
    for a, msg in P.bad[:1]:
        res.append(('bad', site(run), '%s: %s at %s' % (cfg, msg, a.where())))
    for a, msg in R.bad[:1]:
        res.append(('bad', site(run), '%s: %s' % (cfg, msg)))
    if res: return res
    res += [('undec', '%s: %s' % (cfg, u)) for u in sorted(set(P.undec))[:1]]
    p = strmap(run, P)
    if p is None:
        return [('bad', site(run), '%s: the painted weight is not proportional to the mass' % cfg)]
    if P.ty and R.ty and P.ty != R.ty:
        return [('bad', site(run), '%s: paint writes elements of type %s, readout reads %s' % (cfg, sorted(P.ty), sorted(R.ty)))]
    r = diff_maps(None, str(cfg), run, alg, p, R.w, cfg.ndim)
    return res + r + [('count', 'configurations', 1), ('count', 'cells', len(p))]


def table_kinds():
    return [k for k in WM.kinds if k not in GENERIC and k not in TUNED]


def jobs_w01(tier):
    J = []
    for k in GENERIC + TUNED:
        for nd in (1, 2, 3):
            for es in (4, 8):
                for o in orders(nd, full=(tier == 'thorough')):
                    for pe in periods(nd, full=(tier == 'thorough')) if nd < 3 else periods(nd)[:2 if tier == 'quick' else None]:
                        J.append(Cfg(k, nd, o, es, 1, pe))
                    if nd < 3 or tier == 'thorough':
                        for h in ('5/4', '3/2'):
                            if nd == 3 and h == '3/2': continue
                            J.append(Cfg(k, nd, o, es, h, (True,) * nd))
    for k in table_kinds():
        for nd in (1, 2) if tier == 'thorough' else (1,):
            for es in (4, 8):
                for o in orders(nd):
                    J.append(Cfg(k, nd, o, es, 1, (True,) * nd))
    return J


# W02 / W03: inside of the mesh
def interior(alg, ndim):
    """truth of the bound literals deep inside of the mesh (phi literals stay)"""
    base = {}
    for d in range(ndim):
        base[('fld', 'size', d)] = Fraction(2000)
        base[('fld', 'Nmesh', d)] = Fraction(2000)
        base[('fld', 'strides', d)] = Fraction(8)

    for k in alg.atoms:
        if k[0] == 'F': base[k] = Fraction(1000)
    ev = Eval(alg, base)

    def truth(k):
        if k[0] == 'phi': return None
        if k[0] in ('ge', 'r', 'sneg'):
            try:
                return ev.lit(k)
            except Unsupported:
                return None
        return None
    return truth


def assign(alg, p, truth):
    memo = {}
    out = {}
    for m, c in p.items():
        c = alg.dd.assign(c, truth, memo)
        if c != alg.dd.F: out[m] = c
    return alg.psimp(out)


def cell_of(alg, off, d, ndim):
    """the cell polynomial along d of an offset, by the stride atom"""
    s = alg.atom(('fld', 'strides', d), isint=True)
    out = {}
    for m, c in off.items():
        e = dict(m)
        if e.get(s) == 1:
            del e[s]
            out[tuple(sorted(e.items()))] = c
    return out


def phiof(run, d):
    """(F, phi) atoms of axis d"""
    alg = run.alg
    want = None
    for a, k in enumerate(alg.atoms):
        if k[0] == 'F':
            sup = set(x for m, c in k[1] for x, e in m)
            if alg.atom(('pos', 'pos', d)) in sup:
                if want is not None: return None
                want = (a, alg.frac[a])
    return want


def job_w02(cfg):
    run = Run(WM, cfg)
    alg = run.alg
    P = paint_effects(run)
    if P.bad: return [('undec', '%s: %s' % (cfg, P.bad[0][1]))]
    truth = interior(alg, cfg.ndim)
    tot = {}
    mom = [{} for _ in range(cfg.ndim)]
    for k, p in P.w.items():
        q = assign(alg, p, truth)
        tot = alg.add(tot, q)
        off = dict(k)
        for d in range(cfg.ndim):
            mom[d] = alg.add(mom[d], alg.mul(q, cell_of(alg, off, d, cfg.ndim)))
    res = []
    mass = alg.A(run.mass)
    grad = any(cfg.order)
    what = '%s: sum of the weights' % cfg
    want = {} if grad else mass

    def judge(what, got, want):
        d = alg.psimp(alg.sub(got, want))
        if not d or alg.zero(d): return ('ok', what)
        w = witness(alg, d, cfg.ndim, extra=deep)
        if w is None: return ('undec', what)
        return ('bad', site(run), '%s differs from what it must be by %.6g at %s' % (what, float(w[1]), describe(w[0], cfg.ndim)))

    def deep(rnd, b):
        for d in range(cfg.ndim):
            b[('fld', 'size', d)] = Fraction(4000)
            b[('fld', 'Nmesh', d)] = Fraction(4000)
            b[('fld', 'translate', d)] += 2000
    res.append(judge(what, tot, want))
    if NATIVE[cfg.kind] >= 2 and sum(cfg.order) <= 1 and not any(cfg.periodic):
        for d in range(cfg.ndim):
            g = alg.add(alg.mul(alg.A(alg.atom(('fld', 'scale', d))), alg.A(alg.atom(('pos', 'pos', d)))), alg.A(alg.atom(('fld', 'translate', d))))
            if not grad: want = alg.mul(mass, g)
            elif cfg.order[d]: want = alg.mul(mass, alg.A(alg.atom(('fld', 'scale', d))))
            else: want = {}
            res.append(judge('%s: weighted mean position along axis %d' % (cfg, d), mom[d], want))
    return res + [('count', 'configurations', 1), ('count', 'cells', len(P.w))]


def jobs_w02(tier):
    J = []
    for k in GENERIC + TUNED:
        for nd in (1, 2, 3):
            for es in (4, 8):
                for o in orders(nd):
                    J.append(Cfg(k, nd, o, es, 1, (False,) * nd))
                    J.append(Cfg(k, nd, o, es, 1, (True,) * nd))
    return J


# W03
def deriv(alg, p, a):
    out = {}
    for m, c in p.items():
        d = dict(m)
        e = d.get(a, 0)
        if e == 0: continue
        if e == 1: del d[a]
        else: d[a] = e - 1
        alg.acc(out, tuple(sorted(d.items())), alg.dd.apply('*', c, alg.dd.term(e)))
    return out


def job_w03(cfg):
    alg = Alg()
    run1 = Run(WM, cfg, alg)
    G = paint_effects(run1)
    d = [i for i in range(cfg.ndim) if cfg.order[i]][0]
    c0 = Cfg(cfg.kind, cfg.ndim, (0,) * cfg.ndim, cfg.elsize, cfg.hsml, cfg.periodic)
    run0 = Run(WM, c0, alg)
    W = paint_effects(run0)
    if G.bad or W.bad: return [('undec', '%s: %s' % (cfg, (G.bad or W.bad)[0][1]))]
    f = phiof(run0, d)
    if f is None: return [('undec', '%s: no unique fractional position' % cfg)]
    s = alg.A(alg.atom(('fld', 'scale', d)))
    D = {k: alg.mul(deriv(alg, p, f[1]), s) for k, p in W.w.items()}
    # the readout shares the kernels of the paint; its adjointness is W01
    r = diff_maps(None, str(cfg), run1, alg, G.w, D, cfg.ndim)
    return r + [('count', 'configurations', 1), ('count', 'cells', len(G.w))]


def jobs_w03(tier):
    J = []
    for k in GENERIC + TUNED:
        for nd in (1, 2, 3):
            for es in (4, 8):
                for o in orders(nd)[1:]:
                    for h in (['1', '5/4', '3/2', '2'] if nd == 1 else ['1', '3/2'] if nd == 2 else ['1']):
                        J.append(Cfg(k, nd, o, es, h, (True,) * nd))
                    J.append(Cfg(k, nd, o, es, 1, (False,) * nd))
    for k in table_kinds():
        for es in (8,) if tier == 'quick' else (4, 8):
            for h in (1, '3/2'):
                J.append(Cfg(k, 1, (1,), es, h))
    return J


# W04
def job_w04(cfg):
    alg = Alg()
    t = Run(WM, cfg, alg)
    T = paint_effects(t)
    TR = readout_effects(t)
    c0 = Cfg(PAIR[cfg.kind], cfg.ndim, cfg.order, cfg.elsize, cfg.hsml, cfg.periodic, cfg.support)
    g = Run(WM, c0, alg)
    G = paint_effects(g)
    GR = readout_effects(g)
    for E in (T, TR, G, GR):
        if E.bad: return [('undec', '%s: %s' % (cfg, E.bad[0][1]))]
    res = diff_maps(None, '%s paint' % cfg, t, alg, T.w, G.w, cfg.ndim)
    res += diff_maps(None, '%s readout' % cfg, t, alg, TR.w, GR.w, cfg.ndim)
    if len(T.ty | G.ty | TR.ty | GR.ty) > 1:
        res.append(('bad', site(t), '%s: element types %s and %s' % (cfg, sorted(T.ty | TR.ty), sorted(G.ty | GR.ty))))
    return res + [('count', 'configurations', 1), ('count', 'cells', len(T.w))]


def jobs_w04(tier):
    J = []
    for k in TUNED:
        n = NATIVE[k]
        for nd in (1, 2, 3):
            for es in (4, 8):
                for o in orders(nd, full=(tier == 'thorough')):
                    for pe in periods(nd):
                        if nd == 3 and tier == 'quick' and pe[0] != pe[1] : continue
                        J.append(Cfg(k, nd, o, es, 1, pe))
                    if nd == 1 or (nd == 2 and (tier == 'thorough' or not any(o))):
                        # scaled windows, windows of other supports
                        for h, s in ((Fraction(5, 4), -1), (Fraction(3, 2), -1), (Fraction(4, 5), -1), (Fraction(1, 2), -1), (1, n + 1), (1, n), (Fraction(n, n + 1), n + 1), (2, -1)):
                            if nd == 2 and n == 4 and (h == 2): continue
                            J.append(Cfg(k, nd, o, es, h, (True,) * nd, s))
    return J


# W05
def job_w05(cfg):
    if cfg[0] == 'kernel': return job_w05_kernel(*cfg[1:])
    cfg = cfg[1]
    run = Run(WM, cfg)
    alg, dd = run.alg, run.alg.dd
    run.paint()
    run.readout()
    ndim = cfg.ndim
    want = 'double' if cfg.elsize == 8 else 'float'
    res = []
    n = 0
    suspect = []
    for a in run.it.accesses:
        if a.kind in ('null', 'nullcall'):
            res.append(('bad', a.fn.lstrip('@'), '%s: null pointer used at %s' % (cfg, a.where())))
            continue
        if a.obj != 'canvas': continue
        n += 1
        if repr(a.ty) != want:
            res.append(('bad', site(run), '%s: %s of a %s element at %s' % (cfg, a.kind, a.ty, a.where())))
            break
        fine = True
        for h, off in alg.split(a.off):
            g = alg.simp(dd.AND(h, a.guard))
            if g == dd.F: continue
            rest = dict(off)
            for d in range(ndim):
                c = cell_of(alg, off, d, ndim)
                s = alg.A(alg.atom(('fld', 'strides', d), isint=True))
                rest = alg.sub(rest, alg.mul(c, s))
                size = alg.A(alg.atom(('fld', 'size', d), isint=True))
                lo = alg.ge0i(c)
                hi = alg.ge0i(alg.sub(alg.sub(size, alg.C(1)), c))
                if not dd.implies(g, dd.AND(lo, hi)): fine = False
            if alg.psimp(rest): fine = False
        if not fine: suspect.append(a)
    if suspect:
        w = oob_witness(alg, dd, suspect, ndim)
        if w:
            a, b = w
            res.append(('bad', site(run), '%s: %s outside of the mesh at %s for %s' % (cfg, a.kind, a.where(), describe(b, ndim))))
        else:
            res.append(('undec', '%s: %d accesses without a proof of bounds' % (cfg, len(suspect))))
    if not res: res.append(('ok', str(cfg), n))
    return res + [('count', 'accesses', n), ('count', 'configurations', 1)]


def linform(alg, items):
    """(form key, lead, const) of a rational polynomial; form normalised to lead 1"""
    c = Fraction(0)
    l = []
    for m, v in items:
        if m == (): c = v
        else: l.append((m, v))
    if not l: return None, 0, c
    l.sort()
    lead = l[0][1]
    return tuple((m, v / lead) for m, v in l), lead, c


def path_rng(alg, path):
    """bounds of linear forms on a path of a guard"""
    B = {}

    def put(form, lo, hi):
        a, b = B.get(form, (None, None))
        if lo is not None: a = lo if a is None else max(a, lo)
        if hi is not None: b = hi if b is None else min(b, hi)
        B[form] = (a, b)
    for v, t in path:
        k = alg.dd.litname[v]
        if k[0] not in ('ge', 'r'): continue
        form, lead, c = linform(alg, k[1])
        if form is None: continue
        x = -c / lead
        eps = Fraction(1) / abs(lead) if k[0] == 'ge' else 0
        if (lead > 0) == bool(t): put(form, x if t else x + eps, None)
        else: put(form, None, x if t else x - eps)

    def q(items):
        form, lead, c = linform(alg, items)
        if form is None: return c, c
        lo, hi = B.get(form, (None, None))
        if len(form) == 1 and len(form[0][0]) == 1 and form[0][0][0][1] == 1:
            a = form[0][0][0][0]
            l2, h2 = alg.bounds.get(a, (None, None))
            if alg.atoms[a][0] in ('trunc', 'floor'):
                al, ah = q([(m, alg.dd.value(v)) for m, v in alg.atoms[a][1]])
                # open intervals: boundaries are not decided
                tr = alg.atoms[a][0] == 'trunc'
                l3 = None if al is None else Fraction(math.ceil(al) if tr and al < 0 and al.denominator != 1 else al + 1 if tr and al < 0 else math.floor(al))
                h3 = None if ah is None else Fraction(math.floor(ah) + 1 if tr and ah <= 0 and ah.denominator != 1 else ah if tr and ah <= 0 else math.ceil(ah) - 1)
                if tr and al is not None and -1 <= al < 0: l3 = Fraction(0)
                if tr and ah is not None and -1 < ah <= 0: h3 = Fraction(0)
                lo = l3 if lo is None else lo if l3 is None else max(lo, l3)
                hi = h3 if hi is None else hi if h3 is None else min(hi, h3)
            lo = l2 if lo is None else lo if l2 is None else max(lo, l2)
            hi = h2 if hi is None else hi if h2 is None else min(hi, h2)
        if lead < 0: lo, hi = hi, lo
        return (None if lo is None else lo * lead + c), (None if hi is None else hi * lead + c)
    return q


def path_in(alg, g, poly, lo, hi):
    """does g imply lo <= poly <= hi?"""
    for path, t in alg.paths(g):
        if t == 0: continue
        q = path_rng(alg, path)
        asg = dict(path)
        items = []
        for m, c in poly.items():
            n = c
            d = alg.dd.nodes[n]
            while d[0] != 't':
                if d[0] not in asg: return False
                d = alg.dd.nodes[d[1 + asg[d[0]]]]
            if d[1] != 0: items.append((m, d[1]))
        a, b = q(items)
        if a is None or b is None or a < lo or b > hi: return False
    return True


def oob_witness(alg, dd, acc, ndim, n=250):
    rnd = random.Random(5)
    for _ in range(n):
        b = base_assignment(rnd, ndim)
        ev = Eval(alg, b, table_value)
        valid = {0}
        for d in range(ndim):
            valid = {v + int(b[('fld', 'strides', d)]) * i for v in valid for i in range(int(b[('fld', 'size', d)]))}
        for a in acc:
            try:
                if ev.node(a.guard) == 0: continue
                if int(ev.poly(a.off)) not in valid: return a, b
            except Unsupported:
                continue
    return None


def job_w05_kernel(fname, kinds):
    """table lookups of a kernel function, for a particle at any distance"""
    it = Interp(WM.mod)
    alg, dd = it.alg, it.alg.dd
    x = alg.atom(('fld', 'x', 0))
    it.call(fname, [Num(alg.A(x))])
    n = 0
    res = []
    for a in it.accesses:
        if not a.obj.startswith('g:'): continue
        n += 1
        ty = WM.mod.globals[a.obj[2:]][0]
        size = WM.mod.size(ty)
        es = WM.mod.size(a.ty)
        good = path_in(alg, a.guard, a.off, 0, size - es)
        if good:
            res.append(('ok', 'lookup in %s at %s' % (a.obj[3:], a.where())))
            continue
        bad = None
        rnd = random.Random(3)
        for j in range(4000):
            v = Fraction(rnd.randint(-20000, 20000), 1000) if j > 400 else Fraction(j - 200, 16) + Fraction(rnd.choice([-1, 0, 1]), 10 ** 5)
            ev = Eval(alg, {('fld', 'x', 0): v})
            if ev.node(a.guard) == 0: continue
            o = ev.poly(a.off)
            if o < 0 or o > size - es:
                bad = v
                break
        if bad is not None:
            res.append(('bad', fname.lstrip('@'), 'lookup at byte %d of %s (%d bytes) for x = %s at %s' % (int(o), a.obj[3:], size, float(bad), a.where())))
        else:
            res.append(('undec', 'lookup in %s at %s' % (a.obj[3:], a.where())))
    return res + [('count', 'table lookups', n)]


def kernels_of(elsize=8):
    """kind -> (kernel, diff, fwindow, nativesupport)"""
    out = {}
    for k in WM.kinds:
        run = Run(WM, Cfg(k, 1, (0,), elsize))
        c = run.pobj.cells
        P = WM.painter
        r = []
        for f in ('kernel', 'diff', 'fwindow'):
            v = c.get(P[f][0])
            if isinstance(v, Ptr) and len(v.alts) == 1: r.append(v.alts[0][1])
            else: r.append(None)
        v = c.get(P['nativesupport'][0])
        r.append(run.alg.const(v.p) if isinstance(v, Num) else None)
        out[k] = tuple(r)
    return out


def jobs_w05(tier):
    J = []
    for k in GENERIC + TUNED:
        for nd in (1, 2, 3):
            for es in (4, 8):
                for o in orders(nd) if tier == 'thorough' or nd < 3 else orders(nd)[:2]:
                    for pe in periods(nd):
                        J.append(('run', Cfg(k, nd, o, es, 1, pe)))
                        if nd < 3: J.append(('run', Cfg(k, nd, o, es, '5/4', pe)))
    for k in table_kinds():
        for nd in (1, 2) if tier == 'thorough' else (1,):
            for es in (4, 8):
                J.append(('run', Cfg(k, nd, None, es, 1)))
    seen = {}
    for k, (f, g, w, s) in kernels_of().items():
        for x in (f, g):
            if x and x.startswith('fn:'): seen.setdefault(x[3:], []).append(k)
    J += [('kernel', f, tuple(ks)) for f, ks in sorted(seen.items())]
    return J


# W06
def job_w06(cfg):
    run = Run(WM, cfg)
    alg, dd = run.alg, run.alg.dd
    a1 = run.paint()
    v, a2 = run.readout()
    ndim = cfg.ndim
    res = []
    for name, acc in (('paint', [a for a in a1 if a.kind == 'store' and a.obj == 'canvas']),
                      ('readout', [a for a in a2 if a.kind == 'load' and a.obj == 'canvas'])):
        what = '%s %s' % (cfg, name)
        r = stencil(run, cfg, acc)
        if r is None:
            res.append(('ok', what, len(acc)))
            continue
        w = stencil_witness(run, cfg, acc)
        if w: res.append(('bad', site(run), '%s: %s' % (what, w)))
        else: res.append(('undec', '%s: %s' % (what, r)))
    return res + [('count', 'configurations', 1), ('count', 'accesses', len(a1) + len(a2))]


def width(cfg):
    s = cfg.support if cfg.support > 0 else KERN[cfg.kind][3]
    return Fraction(s) * cfg.hsml


def stencil(run, cfg, acc):
    """None if the accesses are exactly the stencil (structural proof), else the reason"""
    alg, dd = run.alg, run.alg.dd
    ndim = cfg.ndim
    Fs = []
    for d in range(ndim):
        F = phiof(run, d)
        if F is None: return 'no unique integer position along axis %d' % d
        want = alg.add(alg.A(F[0]), alg.A(F[1]))
        g = alg.add(alg.mul(alg.A(alg.atom(('fld', 'scale', d))), alg.A(alg.atom(('pos', 'pos', d)))), alg.A(alg.atom(('fld', 'translate', d))))
        r = alg.sub(want, g)
        if r: return 'the grid position along axis %d is not pos*scale + translate' % d
        Fs.append(F)
    # breakpoints of phi
    cuts = [set([Fraction(0), Fraction(1)]) for _ in range(ndim)]
    for k in dd.litname:
        if k[0] == 'phi':
            for d in range(ndim):
                if k[1] == Fs[d][1]: cuts[d].add(k[2])
    s = width(cfg)
    regions = [list(zip(sorted(c)[:-1], sorted(c)[1:])) for c in cuts]
    # all literal cuts of one run; merge them per axis only (product of regions is small)
    for reg in product(*regions):
        asg = {}
        def truth(k):
            if k[0] == 'phi':
                for d in range(ndim):
                    if k[1] == Fs[d][1]: return reg[d][0] >= k[2]
            return None
        memo = {}
        cells = {}
        for a in acc:
            g = dd.assign(a.guard, truth, memo)
            if g == dd.F: continue
            off = {}
            for m, c in a.off.items():
                c = dd.assign(c, truth, memo)
                if c != dd.F: off[m] = c
            off = alg.restrict(off, g)
            if alg.isgated(off): return 'a cell depends on more than the fractional position'
            idx = []
            bound = dd.T
            rest = dict(off)
            for d in range(ndim):
                c = cell_of(alg, off, d, ndim)
                rest = alg.sub(rest, alg.mul(c, alg.A(alg.atom(('fld', 'strides', d), isint=True))))
                k = None
                raw = c
                if cfg.periodic[d]:
                    if len(c) != 1: return 'a cell along axis %d is not wrapped' % d
                    (m, co), = c.items()
                    at = alg.atoms[m[0][0]] if len(m) == 1 and m[0][1] == 1 and co == dd.T else None
                    if not at or at[0] != 'wrap' or at[2] != alg.key(alg.A(alg.atom(('fld', 'Nmesh', d)))): return 'a cell along axis %d is not wrapped by the period' % d
                    raw = dict(at[1])
                k = alg.const(alg.sub(raw, alg.A(Fs[d][0])))
                if k is None: return 'a cell along axis %d is not at a fixed distance of the particle' % d
                idx.append(int(k))
                size = alg.A(alg.atom(('fld', 'size', d), isint=True))
                bound = dd.AND(bound, alg.ge0i(c), alg.ge0i(alg.sub(alg.sub(size, alg.C(1)), c)))
            if alg.psimp(rest): return 'a cell is not addressed by the strides'
            if g != bound: return 'a cell is not skipped exactly when it is outside of the mesh'
            if tuple(idx) in cells: return 'a cell is visited twice'
            cells[tuple(idx)] = a
        axes = [sorted(set(c[d] for c in cells)) for d in range(ndim)]
        n = 1
        for d in range(ndim):
            n *= len(axes[d])
            if axes[d] != list(range(axes[d][0], axes[d][-1] + 1)): return 'the stencil along axis %d has gaps' % d
            # all integers k with |phi - k| < s/2 for phi in the region
            lo, hi = reg[d]
            mid = (lo + hi) / 2
            k0 = _ceil_strict(lo - s / 2) if False else None
            need0 = _first_above(lo - s / 2)
            need1 = _last_below(hi + s / 2)
            if axes[d][0] > need0 or axes[d][-1] < need1: return 'the stencil along axis %d does not cover the support' % d
            if axes[d][0] < need0 - 1 or axes[d][-1] > need1 + 1: return 'the stencil along axis %d is too wide' % d
        if n != len(cells): return 'the stencil is not a box'
    return None


def _first_above(x):
    """smallest integer k with k > phi - s/2 for some phi > lo: the smallest integer > x"""
    import math
    return math.floor(x) + 1


def _last_below(x):
    import math
    return math.ceil(x) - 1


def stencil_witness(run, cfg, acc, n=80):
    import math
    alg, dd = run.alg, run.alg.dd
    ndim = cfg.ndim
    s = width(cfg)
    rnd = random.Random(13)
    for _ in range(n):
        b = base_assignment(rnd, ndim)
        ev = Eval(alg, b, table_value)
        got = {}
        for a in acc:
            if ev.node(a.guard) == 0: continue
            o = int(ev.poly(a.off))
            got[o] = got.get(o, 0) + 1
        must, may = [], []
        for d in range(ndim):
            g = b[('pos', 'pos', d)] * b[('fld', 'scale', d)] + b[('fld', 'translate', d)]
            inner, outer = [], []
            for k in range(math.floor(g - s / 2) - 2, math.ceil(g + s / 2) + 3):
                i = k
                if cfg.periodic[d]: i = k % int(b[('fld', 'Nmesh', d)])
                if not 0 <= i < b[('fld', 'size', d)]: continue
                o = i * int(b[('fld', 'strides', d)])
                if abs(g - k) < s / 2: inner.append(o)
                if abs(g - k) < s / 2 + 1: outer.append(o)
            must.append(inner)
            may.append(outer)
        need, allow = {}, {}
        for c in product(*must): need[sum(c)] = need.get(sum(c), 0) + 1
        for c in product(*may): allow[sum(c)] = allow.get(sum(c), 0) + 1
        for o, k in need.items():
            if got.get(o, 0) < k: return 'cell at offset %d is visited %d times instead of %d for %s' % (o, got.get(o, 0), k, describe(b, ndim))
        for o, k in got.items():
            if k > allow.get(o, 0): return 'cell at offset %d outside of the support is visited for %s' % (o, describe(b, ndim))
    return None


KERN = None


def jobs_w06(tier):
    global KERN
    KERN = kernels_of()
    J = []
    for k in GENERIC + TUNED:
        for nd in (1, 2, 3):
            for es in (4, 8):
                for o in orders(nd) if tier == 'thorough' or nd < 3 else orders(nd)[:2]:
                    for pe in periods(nd, full=(tier == 'thorough')):
                        J.append(Cfg(k, nd, o, es, 1, pe))
                    if nd < 3:
                        for h in ('3/2', '5/4', '4/5', '2'):
                            if nd == 2 and h in ('4/5', '2') and tier == 'quick': continue
                            J.append(Cfg(k, nd, o, es, h, (True,) * nd))
    for k in table_kinds():
        for nd in (1,):
            for es in (4, 8):
                for pe in periods(nd):
                    J.append(Cfg(k, nd, None, es, 1, pe))
    return J


RULES = {
    'W01': ('job_w01', jobs_w01, 'Guarded value numbering of pmesh_painter_paint and pmesh_painter_readout over the compiled IR: the map cell -> guarded polynomial weight '
            'of the additive stores of the one equals that of the loads of the other, for every window, dimension, precision, gradient axis.'),
    'W02': ('job_w02', jobs_w02, 'The normal form of the sum of all weights of an interior particle is the mass (zero for gradient windows); the first moment is the position.'),
    'W03': ('job_w03', jobs_w03, 'The weight of each cell of a gradient window is the formal derivative of the polynomial weight of the window times the scale of the axis.'),
    'W04': ('job_w04', jobs_w04, 'Translation-validation style comparison: the maps cell -> weight of a tuned window and the generic window of the same order have the same normal forms.'),
    'W05': ('job_w05', jobs_w05, 'The path guard of every access of the mesh implies 0 <= index < size along each axis, the offset is the sum of stride*index, the element type has the element size; '
            'the guard of each table lookup implies that it is in the table.'),
    'W06': ('job_w06', jobs_w06, 'The cells visited are, per interval of the fractional position, wrap(floor(g)+k) with g = scale*pos + translate of that axis, for a contiguous box of k which covers the support; '
            'each is skipped exactly when it is outside of the mesh.'),
}

ASSUME = ['machine arithmetic is treated as exact (rounding is not modelled; equality on cell boundaries, a set of measure zero, is not decided)',
          'integers do not overflow', 'the mesh does not alias the other arguments']


def main(pid, tier):
    global WM
    rep = Report(pid, tier)
    try:
        WM = WindowModule(REPO)
    except (BuildError, ParseError, OSError) as e:
        print('ANALYSIS-BROKEN: %s' % e)
        return 3
    except KeyError as e:
        print('ANALYSIS-BROKEN: anchor %s' % e)
        return 3
    fn, jobs, rule = RULES[pid]
    rep.rule(rule)
    rep.assumptions = ASSUME
    J = jobs(tier)
    random.Random(1).shuffle(J)
    J.sort(key=lambda c: -cost(c))
    rep.count('window kinds', len(WM.kinds))
    rep.need('window kinds', 24)
    run_jobs(globals()[fn], J, rep)
    return rep.finish()


def cost(c):
    if isinstance(c, tuple):
        c = c[1]
        if not isinstance(c, Cfg): return 0
    n = NATIVE.get(c.kind, 8)
    return (float(n * c.hsml) + (0.5 if c.hsml != 1 else 0)) ** c.ndim * (3 if c.hsml != 1 else 1)
