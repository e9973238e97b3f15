"""Abstract interpretation of the white noise generator of pmesh/_whitenoise_imp.c

The random number generators are abstract: a generator is the key of its seed
and the number of values drawn so far, a value drawn is a symbol of both.
"""
import os
from fractions import Fraction

from cfront import Module, lower
from cval import Alg, Num, Ptr, UNDEF, Unsupported, Eval
from cint import Interp, Obj
from winmodel import di_structs


class NoiseModule(object):
    def __init__(self, repo):
        self.cfile = os.path.join(repo, 'pmesh', '_whitenoise_imp.c')
        d = os.path.join(repo, 'pmesh')
        text = lower(self.cfile, includes=(os.path.join(d, 'gsl'), d), passes='mem2reg,lcssa')
        self.mod = Module(text)
        self.structs, self.enums = di_structs(text)
        self.gen = self.structs['PMeshWhiteNoiseGenerator']
        t = [t for n, t in self.mod.structs.items() if n.lstrip('%').strip('"').split('.')[-1] == 'PMeshWhiteNoiseGenerator' and t.fields]
        self.size = self.mod.size(t[0]) if t else None


class Geom(object):
    """a part of a mesh"""
    __slots__ = ('N', 'start', 'size', 'elsize', 'unitary', 'axes')

    def __init__(self, N, start=None, size=None, elsize=16, unitary=0, axes=(0, 1, 2)):
        self.N = tuple(N)
        self.start = tuple(start) if start else (0, 0, 0)
        self.size = tuple(size) if size else tuple(N)
        self.elsize, self.unitary, self.axes = elsize, unitary, tuple(axes)

    def __str__(self):
        return 'mesh %s, part from %s of size %s, %s, %s%s' % (list(self.N), list(self.start), list(self.size), {16: 'double', 8: 'single'}.get(self.elsize), 'unitary' if self.unitary else 'Gaussian',
                                                             '' if self.axes == (0, 1, 2) else ', axes stored in the order %s' % (list(self.axes),))


class CInterp(Interp):
    """interpreter with heap objects whose extent is checked"""
    MAXITER = 100000

    shared = None

    def __init__(self, mod):
        Interp.__init__(self, mod, self.shared)
        self.problems = []
        self.heap = {}       # object -> [kind, live, site]

    def site(self, i): return '%s:%s' % (os.path.basename(str(i.file)), i.line)

    def cell(self, obj, c, ty):
        n = getattr(obj, 'extent', None)
        if n is not None and not 0 <= c < n: self.problems.append(('outside', 'byte %d of %s, which has %d bytes' % (c, obj.name, n)))
        h = self.heap.get(obj.name)
        if h is not None and not h[1]: self.problems.append(('released', 'memory allocated at %s is used after its release in %s' % (h[2], self.stack[-1].lstrip('@'))))
        v = Interp.cell(self, obj, c, ty)
        if isinstance(v, Num) and ty.kind == 'ptr' and not v.p: return self.ptr('null')
        return v


def base(p):
    if not isinstance(p, Ptr) or len(p.alts) != 1: raise Unsupported('pointer')
    return p.alts[0][1]


class NoiseRun(object):
    def __init__(self, nm, geom, fill=True):
        self.nm, self.geom = nm, geom
        self.it = it = CInterp(nm.mod)
        self.alg = alg = it.alg
        self.rng = {}
        self.draws = 0
        E = it.externals
        E['gsl_rng_alloc'] = self.x_alloc
        E['gsl_rng_set'] = self.x_set
        E['gsl_rng_uniform'] = self.x_uniform
        E['gsl_rng_uniform_pos'] = self.x_uniform
        E['gsl_rng_free'] = self.x_free
        E['calloc'] = self.x_calloc
        E['malloc'] = self.x_malloc
        E['free'] = self.x_memfree
        E['abort'] = self.x_abort
        o = Obj('generator', 'local')
        it.objs['generator'] = o
        o.extent = nm.size
        F = nm.gen
        C = lambda x: Num(alg.C(x))
        g = geom
        st = [0] * 3
        s = g.elsize
        for d in reversed(g.axes):
            st[d] = s
            s *= g.size[d]
        self.strides, self.bytes = st, s
        c = o.cells
        c[F['ndim'][0]] = C(3)
        c[F['seed'][0]] = Num(alg.A(alg.atom(('seed',), isint=True, lo=Fraction(0))))
        c[F['unitary'][0]] = C(g.unitary)
        c[F['canvas_dtype_elsize'][0]] = C(g.elsize)
        for d in range(3):
            c[F['Nmesh'][0] + 8 * d] = C(g.N[d])
            c[F['start'][0] + 8 * d] = C(g.start[d])
            c[F['size'][0] + 8 * d] = C(g.size[d])
            c[F['strides'][0] + 8 * d] = C(st[d])
        cv = Obj('canvas', 'local')
        cv.extent = s
        it.objs['canvas'] = cv
        c[F['canvas'][0]] = it.ptr('canvas')
        it.call('@pmesh_whitenoise_generator_init', [it.ptr('generator')])
        it.call('@pmesh_whitenoise_generator_fill', [it.ptr('generator')])
        for k, (kind, live, site) in it.heap.items():
            if live: it.problems.append(('leak', '%s allocated at %s is never released' % (kind, site)))

    def fresh(self, kind, i, size=None):
        it = self.it
        k = it.newobj(kind, 'local')
        it.heap[k] = [kind, True, it.site(i)]
        if size is not None: it.objs[k].extent = size
        return k

    def x_alloc(self, it, v, g, i):
        k = self.fresh('generator', i)
        self.rng[k] = [None, 0]
        return it.ptr(k)

    def live(self, p, i, what):
        k = base(p)
        if k not in self.rng: raise Unsupported('random number generator %s' % k)
        h = self.it.heap[k]
        if not h[1]: self.it.problems.append(('released', 'the generator allocated at %s is %s after its release, at %s' % (h[2], what, self.it.site(i))))
        return k

    def certain(self, g):
        if g != self.it.dd.T: raise Unsupported('random numbers drawn under a condition')

    def x_set(self, it, v, g, i):
        self.certain(g)
        k = self.live(v[0], i, 'seeded')
        if v[1] is UNDEF:
            self.it.problems.append(('seed', 'a generator is seeded with an undefined value at %s' % it.site(i)))
            self.rng[k] = [('undefined', len(self.it.problems)), 0]
        else: self.rng[k] = [self.alg.key(it.num(v[1])), 0]
        return UNDEF

    def x_uniform(self, it, v, g, i):
        self.certain(g)
        k = self.live(v[0], i, 'drawn from')
        r = self.rng[k]
        a = self.alg.atom(('rng', r[0] if r[0] is not None else 'default', r[1]), lo=Fraction(0), hi=Fraction(1))
        r[1] += 1
        self.draws += 1
        return Num(self.alg.A(a))

    def release(self, p, i, what):
        if p is UNDEF:
            self.it.problems.append(('released', 'what is released at %s has not been allocated' % self.it.site(i)))
            return UNDEF
        k = base(p)
        if k == 'null': return UNDEF
        h = self.it.heap.get(k)
        if h is None: raise Unsupported('release of %s' % k)
        if not h[1]: self.it.problems.append(('released', 'the %s allocated at %s is released twice, at %s' % (h[0], h[2], self.it.site(i))))
        h[1] = False
        return UNDEF

    def x_free(self, it, v, g, i):
        self.certain(g)
        return self.release(v[0], i, 'free')

    def x_memfree(self, it, v, g, i):
        self.certain(g)
        return self.release(v[0], i, 'free')

    def size(self, *v):
        n = 1
        for x in v:
            c = self.alg.const(self.it.num(x))
            if c is None: raise Unsupported('size of an allocation')
            n *= int(c)
        return n

    def x_calloc(self, it, v, g, i):
        self.certain(g)
        n = self.size(v[0], v[1])
        k = self.fresh('table', i, n)
        it.objs[k].zero.append((0, n))
        return it.ptr(k)

    def x_malloc(self, it, v, g, i):
        self.certain(g)
        return it.ptr(self.fresh('table', i, self.size(v[0])))

    def x_abort(self, it, v, g, i):
        self.it.problems.append(('abort', 'the process is aborted at %s' % it.site(i)))
        raise Aborted()

    # ---- result
    def mode(self, m):
        """(re, im) of a mode of the mesh, None where nothing was stored"""
        g = self.geom
        r = [m[d] - g.start[d] for d in range(3)]
        if any(not 0 <= r[d] < g.size[d] for d in range(3)): return False
        o = sum(x * s for x, s in zip(r, self.strides))
        c = self.it.objs['canvas'].cells
        a, b = c.get(o), c.get(o + g.elsize // 2)
        if a is None or b is None: return None
        if a is UNDEF or b is UNDEF: return None
        return a.p, b.p

    def stray(self):
        """bytes stored which do not belong to a component of a mode"""
        g = self.geom
        good = set()
        for i in range(g.size[0]):
            for j in range(g.size[1]):
                for k in range(g.size[2]):
                    o = i * self.strides[0] + j * self.strides[1] + k * self.strides[2]
                    good.add(o)
                    good.add(o + g.elsize // 2)
        return sorted(set(self.it.objs['canvas'].cells) - good)


class Aborted(Exception):
    pass


def rngatoms(alg, p, out=None):
    """the random numbers a normal form is made of"""
    out = set() if out is None else out

    def walk(k):
        if isinstance(k, tuple):
            if len(k) == 3 and k[0] == 'rng':
                out.add(k)
                return
            for x in k: walk(x)
    seen = set()

    def atom(a):
        if a in seen: return
        seen.add(a)
        k = alg.atoms[a]
        if k[0] == 'rng':
            out.add(k)
            return
        for x in k[1:]: key(x)

    def key(x):
        if isinstance(x, tuple):
            try:
                d = dict(x)
            except (TypeError, ValueError):
                return
            for m in d:
                for a, e in m: atom(a)
    for m in p:
        for a, e in m: atom(a)
    return out
