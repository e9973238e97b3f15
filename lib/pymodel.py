"""Transfer functions of the external libraries (MPI, pfft, mpsort, ...) and the
abstract environment in which the functions of pmesh are analysed."""
import ast
import os
from fractions import Fraction

import numpy as np

import pyval as V
from pyval import S, B, Gate, Unknown, Unsupported, isnum, num, mk, mkb
import pyflow as P
import pynumpy as N
import pyx
from report import REPO

Native = P.Native


class Sources(object):
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.cache = {}

    def path(self, name):
        if name == 'pmesh': return os.path.join(self.repo, 'pmesh', '__init__.py')
        if not name.startswith('pmesh.'): return None
        p = os.path.join(self.repo, *name.split('.'))
        for ext in ('.py', '.pyx'):
            if os.path.exists(p + ext): return p + ext
        return None

    def has(self, name):
        return self.path(name) is not None

    def get(self, name):
        if name not in self.cache:
            p = self.path(name)
            if p is None: return None, None
            code = open(p).read()
            self.cache[name] = (pyx.parse(code) if p.endswith('.pyx') else ast.parse(code), p)
        return self.cache[name]


SRC = None


def sources():
    global SRC
    if SRC is None: SRC = Sources()
    return SRC


# ------------------------------------------------------------------ small stubs

class Quiet(P.Stub):
    """module whose functions have no effect"""
    def attr(self, I, name):
        return Native(lambda I, *a, **k: None, name)


class Functools(P.Stub):
    def m_reduce(self, I, f, seq, *init):
        xs = I.iterate(seq)
        if init: xs = [init[0]] + list(xs)
        if not xs: raise P.AbsRaise('TypeError', I.site())
        r = xs[0]
        for x in xs[1:]: r = I.call(f, [r, x], {})
        return r

    def m_partial(self, I, f, *a, **k):
        return Native(lambda I, *b, **kk: I.call(f, list(a) + list(b), dict(k, **kk)), 'partial')

    def m_wraps(self, I, f):
        return Native(lambda I, g: g, 'wraps')

    def m_lru_cache(self, I, *a, **k):
        if a and isinstance(a[0], P.Fn): return a[0]
        return Native(lambda I, g: g, 'lru_cache')


OPS = {'mul': '*', 'add': '+', 'sub': '-', 'truediv': '/', 'floordiv': '//', 'mod': '%', 'and_': '&', 'or_': '|', 'pow': '**', 'xor': '^'}


class Operator(P.Stub):
    def attr(self, I, name):
        if name in OPS: return Native(lambda I, a, b: I.binop(OPS[name], a, b), name)
        if name == 'neg': return Native(lambda I, a: I.binop('*', a, -1), name)
        if name == 'itemgetter':
            def ig(I, *ks):
                def f(I, o):
                    if len(ks) == 1: return I.getitem(o, ks[0])
                    return tuple(I.getitem(o, k) for k in ks)
                return Native(f, 'itemgetter')
            return Native(ig, name)
        return Unknown('operator.' + name)


class Numbers(P.Stub):
    def attr(self, I, name):
        return Native(None, name)


class Collections(P.Stub):
    def m_OrderedDict(self, I, x=None, **k):
        return I.call(N.BUILTINS['dict'], [] if x is None else [x], k)

    def m_namedtuple(self, I, name, fields, **k):
        fs = fields.replace(',', ' ').split() if isinstance(fields, str) else list(fields)

        def make(I, *a, **kw):
            t = list(a) + [kw[f] for f in fs[len(a):]]
            o = P.Inst(cls)
            o.seq = tuple(t)
            for f, x in zip(fs, t): o.attrs[f] = x
            I.register(o.attrs)
            return o
        cls = P.Class(name, [], {})
        return Native(make, name)

    def m_defaultdict(self, I, f=None, *a):
        return Unknown('defaultdict')


class Weakref(P.Stub):
    def m_WeakValueDictionary(self, I, *a):
        return Cache(I)


def deep(I, k):
    k = I.resolve(k)
    if isinstance(k, (tuple, list)): return tuple(deep(I, x) for x in k)
    return k


class Cache(P.Stub):
    """a cache of unknown contents: a lookup may or may not succeed on each rank"""
    def __init__(self, I):
        self.made = {}

    def m_get(self, I, key, default=None):
        I.event('cache.get', key=key)
        h = V.bu('cached', key, local=True)
        if getattr(I, 'cachehit', None) is False: return default
        if I.cachehit == 'given': return I.cached(key)
        if I.cachehit == 'history': return self.made.get(V.akey(deep(I, key)), default)
        if getattr(I, 'cachehit', None) is True: return I.cached(key)
        if not hasattr(I, 'cached'): return default
        v = I.cached(key)
        return V.ite(h.g, v, default)

    def getitem(self, I, key):
        return self.m_get(I, key)

    def setitem(self, I, key, v):
        I.event('cache.set', key=key, value=v)
        if I.cachehit == 'history': self.made[V.akey(deep(I, key))] = v

    def contains(self, I, key):
        I.event('cache.get', key=key)
        return V.bu('cached', key, local=True)


class Heapq(P.Stub):
    def attr(self, I, name):
        if N.splitting(): return Native(lambda I, *a: self.ordered(I, name, *a), name)
        if getattr(I, 'exactv', False): return Native(lambda I, *a: self.exact(I, name, *a), name)
        if name in ('heappop', 'heappushpop', 'heapreplace'): return Native(self.pop, name)
        if name in ('heapify', 'heappush'): return Native(lambda I, *a: None, name)
        return Native(lambda I, *a: I.unknown('heapq.' + name), name)

    def exact(self, I, name, heap, *a):
        """on known numbers"""
        import heapq
        h = I.resolve(heap)

        def known(x):
            x = I.resolve(x)
            if isinstance(x, tuple): return tuple(known(y) for y in x)
            if isinstance(x, (S, B, Unknown, Gate, P.Arr)) or not isnum(x): raise Unsupported('heap of abstract values')
            return x
        if not isinstance(h, list): raise Unsupported('heapq.' + name)
        h[:] = [known(x) for x in h]
        if name in ('nlargest', 'nsmallest'): raise Unsupported('heapq.' + name)
        return getattr(heapq, name)(h, *[known(x) for x in a])

    def ordered(self, I, name, heap, *a):
        """on values whose order is known"""
        import heapq
        if name in ('nlargest', 'nsmallest'):
            xs = [N.Ord(I, x) for x in I.iterate(a[0])]
            return I.register([o.v for o in getattr(heapq, name)(int(I.resolve(heap)), xs)])
        h = I.resolve(heap)
        if not isinstance(h, list) or name not in ('heapify', 'heappush', 'heappop', 'heappushpop', 'heapreplace'): raise Unsupported('heapq.' + name)
        w = [N.Ord(I, x) for x in h]
        r = getattr(heapq, name)(w, *[N.Ord(I, x) for x in a])
        h[:] = [o.v for o in w]
        return None if r is None else r.v

    def pop(self, I, heap, *a):
        """some item of the heap, the same on all ranks"""
        h = I.resolve(heap)
        I.popped = getattr(I, 'popped', 0) + 1
        if not isinstance(h, list) or not h: return I.unknown('heapq')
        x = I.resolve(h[0])
        n = len(h)
        if isinstance(x, tuple) and len(x) == 2: return (V.var('pop%d.load' % I.popped), V.var('pop%d.item' % I.popped, isint=True, lo=Fraction(0), hi=Fraction(n - 1)))
        return I.unknown('heapq')


# ------------------------------------------------------------------ MPI

class Op(P.Stub):
    def __init__(self, name): self.name = name

    def akey(self): return ('c', 'op ' + self.name)


class MPIType(P.Stub):
    """an MPI datatype; state: new, committed, freed"""
    n = 0

    def __init__(self, I, name, size, basic=False):
        self.name, self.size, self.basic = name, size, basic
        MPIType.n += 1
        self.id = MPIType.n

    def m_Create_contiguous(self, I, n):
        t = MPIType(I, 'contiguous', I.binop('*', self.size, n))
        I.event('dt.create', dt=t)
        return t

    def m_Create_vector(self, I, n, *a): return self.derived(I)

    def derived(self, I):
        t = MPIType(I, 'derived', Unknown('extent of a derived datatype'))
        I.event('dt.create', dt=t)
        return t

    m_Create_hvector = m_Create_indexed = m_Create_struct = m_Create_subarray = m_Create_resized = m_Create_indexed_block = m_Create_vector

    def m_Dup(self, I):
        t = MPIType(I, 'copy', self.size)
        I.event('dt.create', dt=t)
        return t

    def m_Get_size(self, I): return self.size

    def m_Commit(self, I):
        I.event('dt.commit', dt=self)
        return self

    def m_Free(self, I):
        I.event('dt.free', dt=self)

    def akey(self): return ('x', 'dt', V.akey(self.size))


class Comm(P.Stub):
    def __init__(self, size=3, rank=None, name='comm'):
        self.size = size
        self.name = name
        self.rank = rank

    def akey(self): return ('c', 'comm ' + self.name)

    def attr(self, I, name):
        if name == 'size': return self.size
        if name == 'rank':
            if self.rank is not None: return self.rank
            if self.size == 1: return 0
            return V.var('rank', local=True, isint=True, lo=Fraction(0), hi=Fraction(self.size - 1))
        return P.Stub.attr(self, I, name)

    def m_Get_size(self, I): return self.attr(I, 'size')
    def m_Get_rank(self, I): return self.attr(I, 'rank')

    def m_Barrier(self, I):
        I.event('coll', op='Barrier', comm=self, args=())

    m_barrier = m_Barrier

    def each(self, I, x, f):
        x = I.resolve(x)
        if isinstance(x, P.Inst) and I.isfieldlike(x): x = I.getattr(x, 'value')
        if isinstance(x, Unknown): return x
        if isnum(x): return f(x)
        if isinstance(x, P.Arr):
            if x.fields is not None: return I.unknown('reduction of a structured array')
            g = V.pyfunc(f, 1, 1)
            d = g(x.data)
            if x.ndim == 0: return d if not isinstance(d, np.ndarray) else d[()]
            sym = {k: self.each(I, n, lambda e: V.u('bcastlen', e, isint=True, lo=Fraction(0))) for k, n in x.sym.items()}
            return I.new(d, x.dtype, x.sym)
        if isinstance(x, (list, tuple)):
            r = [self.each(I, y, f) for y in x]
            return tuple(r) if isinstance(x, tuple) else I.register(r)
        return None

    def m_allreduce(self, I, x, op=None):
        opn = op.name if isinstance(op, Op) else ('SUM' if op is None else '?')
        I.event('coll', op='allreduce', comm=self, args=(x,), rop=opn)
        x = mergegate(I, x)
        if isinstance(x, Gate): x = I.unknown('reduction of an undecided value')
        vs = self.others(I, x)
        if self.size == 1: return x
        if vs is not None and getattr(I, 'exactv', False):
            r = elementwise(I, opn, vs)
            if r is not None: return r
        if vs is not None and not alike(vs):
            r = reduced(I, self, opn, vs)
            if r is not None: return r
        r = self.each(I, x, lambda e: allred(opn, e))
        if r is None: return I.unknown('allreduce')
        return r

    m_reduce = m_allreduce

    def m_allgather(self, I, x):
        I.event('coll', op='allgather', comm=self, args=(x,))
        x = mergegate(I, x)
        vs = self.others(I, x)
        if vs is not None: return I.register([self.at(I, v, r, 'allgather') for r, v in enumerate(vs)])
        if self.size == 1: return I.register([x])
        return I.register([self.at(I, x, r, 'allgather') for r in range(self.size)])

    def others(self, I, x):
        """the values of all ranks, from their own analyses"""
        if getattr(I, 'sent', None) is None: return None
        I.sent.append(x)
        n = len(I.sent) - 1
        return I.received[n] if n < len(I.received) else None

    def at(self, I, x, r, name):
        x = I.resolve(x)
        if isinstance(x, (str, type(None), np.dtype)): return x
        if isinstance(x, Gate): return I.unknown('allgather of an undecided value')
        v = self.each(I, x, lambda e: atrank(name, r, e))
        if v is None and x is not None: return I.unknown('allgather')
        return v

    def m_bcast(self, I, x, root=0):
        I.event('coll', op='bcast', comm=self, args=(x,), root=root)
        vs = self.others(I, x)
        if vs is not None and isinstance(root, int) and 0 <= root < len(vs): x = vs[root]
        if self.size == 1: return x
        return self.at(I, x, root, 'bcast')

    def m_gather(self, I, x, root=0):
        I.event('coll', op='gather', comm=self, args=(x,), root=root)
        return Unknown('gather')

    def m_scatter(self, I, x, root=0):
        I.event('coll', op='scatter', comm=self, args=(x,), root=root)
        return Unknown('scatter')

    def m_alltoall(self, I, x):
        I.event('coll', op='alltoall', comm=self, args=(x,))
        return Unknown('alltoall')

    def bufs(self, I, b):
        b = I.resolve(b)
        if isinstance(b, (list, tuple)): return I.resolve(b[0])
        return b

    def m_Allreduce(self, I, send, recv, op=None):
        opn = op.name if isinstance(op, Op) else ('SUM' if op is None else '?')
        s, r = self.bufs(I, send), self.bufs(I, recv)
        inplace = isinstance(s, Const) and s.name == 'IN_PLACE'
        src = r if inplace else s
        I.event('coll', op='Allreduce', comm=self, args=(src, r), rop=opn, inplace=inplace)
        if self.size == 1:
            if not inplace: I.store(r, s)
            return
        v = self.each(I, src, lambda e: allred(opn, e))
        I.store(r, v)

    def m_Allgather(self, I, send, recv):
        I.event('coll', op='Allgather', comm=self, args=(send, recv))
        r = self.bufs(I, recv)
        if isinstance(r, P.Arr): r.data[...] = I.unknown('Allgather')

    def m_Bcast(self, I, buf, root=0):
        I.event('coll', op='Bcast', comm=self, args=(buf,), root=root)

    def m_Alltoall(self, I, send, recv):
        s, r = self.bufs(I, send), self.bufs(I, recv)
        I.event('coll', op='Alltoall', comm=self, args=(s, r))
        if isinstance(s, P.Arr) and isinstance(r, P.Arr) and not s.sym:
            if self.size == 1:
                I.store(r, s)
                return
            rk = self.attr(I, 'rank')
            sz = s.data.shape[0] // self.size
            vs = self.others(I, s)
            if vs is not None and isinstance(rk, int) and r.data.shape[0] == self.size * sz and all(isinstance(v, P.Arr) and v.data.shape == s.data.shape for v in vs):
                for k in range(r.data.shape[0]): r.data[k] = atrank('allgather', k // sz, vs[k // sz].data[rk * sz + k % sz])
                return
            for k in range(r.data.shape[0]):
                # what rank k//sz has for this rank
                r.data[k] = V.u('local:alltoall', k, I.asarr(s), rk, isint=True, lo=Fraction(0))
            return
        if isinstance(r, P.Arr): r.data[...] = I.unknown('Alltoall')

    def m_Alltoallv(self, I, send, recv):
        I.event('coll', op='Alltoallv', comm=self, args=(send, recv))
        r = self.bufs(I, recv)
        s = self.bufs(I, send)
        if isinstance(s, Unknown) or isinstance(r, Unknown): return
        self.alltoallv(I, s, send, r, recv)

    def exact(self, I, s, send, r, recv):
        """delivery between the analyses of all ranks, when the counts are known numbers"""
        def ints(x):
            x = I.asarr(x)
            if x.sym: return None
            out = [I.resolve(e) for e in x.data.ravel()]
            return [int(e) for e in out] if all(isinstance(e, (int, np.integer)) for e in out) else None

        def form(buf, spec):
            if not isinstance(spec, (list, tuple)) or len(spec) != 3: return None
            b, (c, o), t = spec[0], I.resolve(spec[1]), I.resolve(spec[2])
            c, o = ints(c), ints(o)
            sz = t.size if isinstance(t, MPIType) else None
            if c is None or o is None or sz is None or buf.sym or isinstance(sz, (S, B, Unknown, Gate)): return None
            return [buf, c, o, int(sz)]

        def itemsize(a):
            n = a.dtype.itemsize
            for q in a.data.shape[1:]: n *= q
            return n
        if not isinstance(s, P.Arr) or not isinstance(r, P.Arr): return False
        mine, put = form(s, send), form(r, recv)
        vs = self.others(I, I.register(mine) if mine is not None else None)
        if mine is None or put is None or vs is None: return False
        rk = self.attr(I, 'rank')
        wrong = lambda t: I.event('delivery', what=t)
        if put[3] != itemsize(r): wrong('an element of the received array has %d bytes, the communication datatype %d' % (itemsize(r), put[3]))
        if mine[3] != itemsize(s): wrong('an element of the sent array has %d bytes, the communication datatype %d' % (itemsize(s), mine[3]))
        for p, v in enumerate(vs):
            if not isinstance(v, list): return False
            a, c, o, sz = v
            n, b, n1, b1 = c[rk], o[rk], put[1][p], put[2][p]
            if sz != put[3]: wrong('rank %d sends elements of %d bytes, %d are received' % (p, sz, put[3]))
            if n != n1: wrong('rank %d sends %d elements to rank %d, which expects %d' % (p, n, rk, n1))
            if b < 0 or b + n > a.data.shape[0]: wrong('elements %d to %d are sent by rank %d from an array of %d' % (b, b + n, p, a.data.shape[0]))
            if b1 < 0 or b1 + n1 > r.data.shape[0]: wrong('elements %d to %d are received by rank %d in an array of %d' % (b1, b1 + n1, rk, r.data.shape[0]))
            n = max(0, min(n, n1, a.data.shape[0] - b, r.data.shape[0] - b1))

            def move(x, y):
                if x.fields is not None and y.fields is not None:
                    for f, g in zip(x.fields.values(), y.fields.values()): move(f, g)
                elif x.fields is None and y.fields is None and x.data.shape[1:] == y.data.shape[1:]: y.data[b1:b1 + n] = x.data[b:b + n]
                else: raise Unsupported('Alltoallv between arrays of different kinds')
            move(a, r)
        return True

    def alltoallv(self, I, s, send, r, recv):
        if getattr(I, 'exactv', False):
            if self.exact(I, s, send, r, recv): return
        rk = self.attr(I, 'rank')

        def fill(a, b):
            if a.fields is not None or b.fields is not None:
                if a.fields is None or b.fields is None: return
                for x, y in zip(a.fields.values(), b.fields.values()): fill(x, y)
                return
            if a.data.size == 0 and b.data.size: raise Unsupported('Alltoallv of nothing')
            try:
                ks, kr = V.akey(send[1]), V.akey(recv[1])
                for j in np.ndindex(*b.data.shape):
                    e = a.data[tuple(min(q, n - 1) for q, n in zip(j, a.data.shape))] if a.ndim == b.ndim else a.data.ravel()[0]
                    b.data[j] = V.u('local:alltoallv', e, send[1], recv[1], rk) if isnum(e) else e
            except Unsupported as ex:
                b.data[...] = I.unknown('Alltoallv: %s' % ex)
        fill(s, r)

    def m_Split(self, I, *a, **k):
        I.event('coll', op='Split', comm=self, args=())
        return Comm(self.size, self.rank, 'split')

    m_Dup = m_Clone = lambda self, I: self
    m_Create = m_Split

    def m_Abort(self, I, *a): return None
    m_send = m_recv = m_Send = m_Recv = m_Sendrecv = lambda self, I, *a, **k: I.unknown('point to point')


def alike(vs):
    try: return len(set(V.akey(v) for v in vs)) == 1
    except Exception: return False


def reduced(I, comm, opn, vs):
    """reduction of values which differ in more than the values of local variables"""
    if any(isinstance(v, (list, tuple)) for v in vs): return None
    try: arrs = [I.asarr(v) for v in vs]
    except Unsupported: return None
    if len(set(a.data.shape for a in arrs)) != 1: return I.unknown('reduction of arrays of different shapes')
    d = np.empty(arrs[0].data.shape, dtype=object)
    for j in np.ndindex(*d.shape):
        es = [a.data[j] for a in arrs]
        if not all(isnum(e) for e in es): return I.unknown('reduction')
        if opn == 'SUM':
            t = 0
            for r, e in enumerate(es): t = V.binop('+', t, atrank('allgather', r, e))
        elif opn in ('LOR', 'LAND'):
            dd = V.ALG.dd
            g = dd.F if opn == 'LOR' else dd.T
            for r, e in enumerate(es):
                y = V.truth(atrank('allgather', r, e))
                g = (dd.OR if opn == 'LOR' else dd.AND)(g, y)
            t = B(g)
        elif not any(isinstance(e, (S, B)) for e in es): t = {'MAX': max, 'MIN': min}[opn](es) if opn in ('MAX', 'MIN') else I.unknown('reduction')
        else: t = V.u('allreduce*', opn, *[atrank('allgather', r, e) for r, e in enumerate(es)])
        d[j] = t
    if d.shape == () and not any(isinstance(v, P.Arr) for v in vs): return d[()]
    return I.new(d, arrs[0].dtype)


def mergegate(I, x):
    """one array of gated elements instead of several arrays"""
    x = I.resolve(x)
    if not isinstance(x, Gate): return x
    alts = [(g, I.asarr(v)) for g, v in x.alts if isinstance(v, P.Arr) or isnum(v)]
    if len(alts) != len(x.alts) or len(set(a.data.shape for g, a in alts)) != 1 or any(a.sym for g, a in alts): return x
    d = alts[0][1].data.copy()
    for g, a in alts[1:]:
        for j in np.ndindex(*d.shape): d[j] = V.ite(g, a.data[j], d[j])
    return I.new(d, alts[0][1].dtype)


def elementwise(I, opn, vs):
    """reduction of the values all ranks have"""
    vs = [I.resolve(v) for v in vs]
    f = {'SUM': '+', 'PROD': '*', 'LOR': '|', 'BOR': '|', 'LAND': '&', 'BAND': '&'}.get(opn)
    if f is None or (f in '|&' and not all(isinstance(v, (bool, np.bool_, B)) for v in vs)): return None
    if all(isinstance(v, P.Arr) for v in vs):
        if any(v.fields is not None or v.sym or v.data.shape != vs[0].data.shape for v in vs): return None
        d = vs[0].data.copy()
        for v in vs[1:]:
            for j in np.ndindex(*d.shape): d[j] = V.binop(f, d[j], v.data[j])
        if any(isinstance(x, Unknown) for x in d.ravel()): return None
        return I.new(d, np.result_type(*[v.dtype for v in vs]))
    if not all(isnum(v) for v in vs): return None
    r = vs[0]
    for v in vs[1:]: r = V.binop(f, r, v)
    return None if isinstance(r, Unknown) else r


def allred(opn, e):
    if isinstance(e, Unknown): return e
    if opn == 'SUM' and isnum(e) and not isinstance(e, (S, B)) and e == 0: return 0
    if opn == 'LOR': return V.bu('allreduce', 'LOR', V.mk(num(e)))
    if opn == 'LAND': return V.bu('allreduce', 'LAND', V.mk(num(e)))
    p = num(e)
    if opn == 'SUM':
        # the sum over the ranks is linear: factors common to all ranks move out
        A = V.ALG
        out = {}
        for m, c in p.items():
            um = tuple((a, x) for a, x in m if not V.islocal(A.A(a)))
            lm = tuple((a, x) for a, x in m if V.islocal(A.A(a)))
            if A.dd.isterm(c):
                inner = {lm: A.dd.T} if lm else {(): A.dd.T}
                f = {um: c}
            else:
                inner = {lm: c}
                f = {um: A.dd.T}
            t = V.u('allreduce', opn, V.mk(inner), isint=A.isintpoly(inner))
            out = A.add(out, A.mul(f, t.p))
        return V.mk(out)
    return V.u('allreduce', opn, V.mk(p), isint=V.ALG.isintpoly(p))


def atrank(name, r, e):
    if isinstance(e, Unknown): return e
    if isinstance(e, (bool, np.bool_)): return bool(e)
    if isinstance(e, B):
        if not V.islocal(e): return e
        return V.B(V.guardat(name, r, e.g))
    if not isinstance(e, S): return e
    if not V.islocal(e): return e
    lo, hi = V.ALG.ranges(e.p) if hasattr(V.ALG, 'ranges') else (None, None)
    return V.u(name, r, e, isint=V.ALG.isintpoly(e.p), lo=lo, hi=hi)


class Const(P.Stub):
    def __init__(self, name): self.name = name

    def akey(self): return ('c', self.name)

    def __repr__(self): return self.name


class MPIMod(P.Stub):
    def __init__(self, world):
        self.a_COMM_WORLD = world
        self.a_COMM_SELF = Comm(1, 0, 'self')
        for o in ('SUM', 'MAX', 'MIN', 'PROD', 'LOR', 'LAND', 'BOR', 'BAND'):
            setattr(self, 'a_' + o, Op(o))
        self.a_IN_PLACE = Const('IN_PLACE')
        self.a_BYTE = MPIType(None, 'BYTE', 1, True)
        self.a_DOUBLE = MPIType(None, 'DOUBLE', 8, True)

    def m__addressof(self, I, c):
        return V.u('addressof', c.akey(), isint=True)


# ------------------------------------------------------------------ pfft

class Flag(P.Stub):
    """a set of planner flags"""
    def __init__(self, names): self.names = frozenset(names)

    def akey(self): return ('c', 'flags ' + '|'.join(sorted(self.names)))

    def binop(self, I, op, a, b):
        if isinstance(a, int) and a == 0: a = Flag([])
        if isinstance(b, int) and b == 0: b = Flag([])
        if isinstance(a, Flag) and isinstance(b, Flag):
            if op in ('|', '+'): return Flag(a.names | b.names)
            if op == '&': return Flag(a.names & b.names)
        return I.unknown('flags')

    def cmp(self, I, op, b):
        r = isinstance(b, Flag) and b.names == self.names
        return r if op == '==' else not r

    def __repr__(self): return '|'.join(sorted(self.names))


class Flags(P.Stub):
    def attr(self, I, name):
        return Flag([name])


class EnumMod(P.Stub):
    def __init__(self, pre): self.pre, self.c = pre, {}

    def attr(self, I, name):
        return self.c.setdefault(name, Const(name))


class Partition(P.Stub):
    def __init__(self, I, type, Nmesh, procmesh, flags):
        self.type, self.procmesh, self.flags = type, procmesh, flags
        self.T = 'PFFT_TRANSPOSED_OUT' in flags.names
        self.c2c = type.name.endswith('C2C')
        Nm = [I.resolve(x) for x in I.iterate(Nmesh)]
        n = len(Nm)
        self.a_ndim = n
        self.a_n = Nmesh
        env = I.penv
        tag = 'T' if self.T else 'U'
        pre = env.get('prefix', '')
        self.pre = pre
        ish = env['ishape'][:n]
        osh = env['oshapeT' if self.T else 'oshapeU'][:n]
        self.a_local_i_shape = I.asarr(list(ish))
        self.a_local_o_shape = I.asarr(list(osh))
        self.a_local_i_shape.dtype = self.a_local_o_shape.dtype = np.dtype('i8')
        half = lambda k: I.binop('+', I.binop('//', Nm[k], 2), 1) if k == n - 1 and not self.c2c else Nm[k]

        def mkS(nm, k, full, loc):
            if pre + nm in env: return env[pre + nm][k]
            v = V.var('%s%s%d' % (pre, nm, k), local=True, isint=True, lo=Fraction(0))
            # the local part lies within the mesh: bounds of the witnesses
            V.ALG.hidep.setdefault(('v', '%s%s%d' % (pre, nm, k), 'L'), num(I.binop('-', full, loc)))
            return v
        self.a_local_i_start = I.asarr([mkS('istart', k, Nm[k], ish[k]) for k in range(n)])
        self.a_local_o_start = I.asarr([mkS('ostart' + tag, k, half(k), osh[k]) for k in range(n)])
        npn = I.resolve(procmesh.np) if isinstance(procmesh, ProcMesh) else []
        npl = list(I.iterate(npn))
        ie, oe = [], []
        for k in range(n):
            if 'iedges' in env: ie.append(I.asarr(list(env['iedges'][k])))
            elif env.get('edges', 1) and k < n - 1:
                ie.append(I.asarr([0, V.var('%siedge%d' % (pre, k), isint=True, lo=Fraction(0)), Nm[k]]))
            else: ie.append(I.asarr([0, Nm[k]]))
            last = Nm[k]
            if k == n - 1 and not self.c2c: last = I.binop('+', I.binop('//', Nm[k], 2), 1)
            oe.append(I.asarr([0, last]))
        self.a_i_edges, self.a_o_edges = I.register(ie), I.register(oe)


class ProcMesh(P.Stub):
    def __init__(self, np_, comm):
        self.np, self.comm = np_, comm
        self.a_comm = comm
        self.a_np = np_


class Memory(object):
    n = 0

    def __init__(self):
        Memory.n += 1
        self.id = Memory.n
        self.views = {}
        self.last = {}
        self.garbage = 0


class LocalBuffer(P.Stub):
    """a block of memory seen through the layouts of a partition"""
    def __init__(self, I, partition, mem=None):
        self.p = partition
        self.mem = mem if mem is not None else Memory()

    def contains(self, I, x):
        return isinstance(x, LocalBuffer) and x.mem is self.mem

    def akey(self): return ('c', 'buffer %d' % self.mem.id)

    def sync(self, I):
        m = self.mem
        changed = [k for k, a in m.views.items() if any(x is not y for x, y in zip(a.data.ravel(), m.last[k].ravel()))]
        if changed:
            for k, a in m.views.items():
                if k not in changed:
                    m.garbage += 1
                    for j in np.ndindex(*a.data.shape): a.data[j] = V.u('overwritten', m.id, m.garbage, len(I.events), str(k), list(j))
        for k, a in m.views.items(): m.last[k] = a.data.copy()

    def getview(self, I, kind):
        self.sync(I)
        p = self.p
        k = ('i',) if kind == 'i' else ('o', p.T)
        m = self.mem
        if k not in m.views:
            sh = tuple(int(x) for x in (p.a_local_i_shape if kind == 'i' else p.a_local_o_shape).data)
            if kind == 'o' and p.T and len(sh) == 3:
                d = np.empty((sh[1], sh[0], sh[2]), dtype=object).transpose(1, 0, 2)
            else: d = np.empty(sh, dtype=object)
            for j in np.ndindex(*sh): d[j] = V.u('memory', m.id, str(k), list(j))
            single = 'PFFTF' in p.type.name
            cplx = kind == 'o' or p.c2c
            dt = {(False, False): 'f8', (False, True): 'c16', (True, False): 'f4', (True, True): 'c8'}[(single, cplx)]
            a = P.Arr(d, dt)
            I.register(d)
            m.views[k] = a
            m.last[k] = d.copy()
        a = m.views[k]
        v = P.Arr(a.data, a.dtype, {}, root=a)
        v.mem = m
        return v

    def m_view_input(self, I): return self.getview(I, 'i')
    def m_view_output(self, I): return self.getview(I, 'o')


def complexatom(name, *args):
    """a generic complex value with separate real and imaginary parts"""
    return I_add(V.u(name, 're', *args), V.u(name, 'im', *args))


def I_add(re, im):
    return V.mk(V.ALG.add(num(re), V.ALG.mul(num(im), V.ALG.A(V.ALG.aid[('I',)]))))


class Plan(P.Stub):
    n = 0

    def __init__(self, I, partition, direction, i, o, type, flags):
        Plan.n += 1
        self.id = Plan.n
        self.partition, self.direction, self.type, self.flags = partition, direction, type, flags
        self.inplace = i.mem is o.mem

    def akey(self):
        return ('c', 'plan %s %s %s %s %s' % (self.direction.name, self.type.name, self.flags, self.inplace, self.partition.T))

    def m_execute(self, I, i, o=None):
        if o is None: o = i
        if isinstance(i, Unknown) or isinstance(o, Unknown):
            I.event('execute', plan=self, i=i, o=o)
            return
        fwd = self.direction.name == 'PFFT_FORWARD'
        i.sync(I)
        if o.mem is not i.mem: o.sync(I)
        src = i.getview(I, 'i' if fwd else 'o')
        I.event('execute', plan=self, i=i, o=o, src=src.data.copy())
        dst = o.getview(I, 'o' if fwd else 'i')
        key = I.new(src.data.copy())
        cplx = dst.dtype.kind == 'c'
        for j in np.ndindex(*dst.data.shape):
            dst.data[j] = complexatom('dft', self.akey(), key, list(j)) if cplx else V.u('dft', self.akey(), key, list(j))
        o.sync(I)
        if 'PFFT_DESTROY_INPUT' in self.flags.names and i.mem is not o.mem:
            for j in np.ndindex(*src.data.shape): src.data[j] = V.u('destroyed', i.mem.id, len(I.events), list(j))
            i.sync(I)


class Pfft(P.Stub):
    def __init__(self):
        self.a_Flags = Flags()
        self.a_Type = EnumMod('Type')
        self.a_Direction = EnumMod('Direction')

    def m_split_size_2d(self, I, n):
        if n == 1: return I.register([1, 1])
        return I.register([1, n])

    def m_ProcMesh(self, I, np, comm=None):
        I.event('coll', op='ProcMesh', comm=comm, args=())
        return ProcMesh(np, comm)

    def m_Partition(self, I, type, Nmesh, procmesh, flags):
        return Partition(I, type, Nmesh, procmesh, flags)

    def m_LocalBuffer(self, I, partition, base=None):
        base = I.resolve(base)
        if isinstance(base, (Unknown, Gate)): return I.unknown('LocalBuffer')
        return LocalBuffer(I, partition, None if base is None else base.mem)

    def m_Plan(self, I, partition, direction, i, o=None, type=None, flags=None, **k):
        if o is None: o = i
        I.event('coll', op='Plan', comm=None, args=())
        p = Plan(I, partition, direction, i, o, type, flags)
        I.event('plan', plan=p)
        return p


# ------------------------------------------------------------------ mpsort

def datum(name, dtype, *args):
    return complexatom(name, *args) if np.dtype(dtype).kind == 'c' else V.u(name, *args)


class Mpsort(P.Stub):
    def flat(self, I, x):
        if isinstance(x, P.Flat): return x.arr
        return I.asarr(x)

    def m_sort(self, I, source, orderby=None, out=None, comm=None, **k):
        s, o = self.flat(I, source), self.flat(I, orderby)
        I.event('coll', op='mpsort.sort', comm=comm, args=())
        I.event('mpsort.sort', source=s, key=o, src=s.data.copy(), out=out, comm=comm)
        if out is None:
            out = I.new(np.empty(s.data.shape, dtype=object), s.dtype, dict(s.sym))
            d = out
        else: d = self.flat(I, out)
        src, ok = I.new(s.data.copy()), I.new(o.data.copy())
        for n, j in enumerate(np.ndindex(*d.data.shape)):
            d.data[j] = datum('local:sorted', s.dtype, src, ok, n)
        I.events[-1].args['result'] = d.data.copy()
        return out

    def m_permute(self, I, source, argindex=None, comm=None, out=None, **k):
        s, o = self.flat(I, source), self.flat(I, argindex)
        I.event('coll', op='mpsort.permute', comm=comm, args=())
        I.event('mpsort.permute', source=s, key=o, src=s.data.copy(), out=out, comm=comm)
        if out is None:
            out = I.new(np.empty(o.data.shape, dtype=object), s.dtype, dict(o.sym))
            d = out
        else: d = self.flat(I, out)
        src = I.new(s.data.copy())
        for n, (j, e) in enumerate(zip(np.ndindex(*d.data.shape), o.data.ravel())):
            d.data[j] = datum('local:permuted', s.dtype, src, e)
        return out

    def m_take(self, I, source, argindex, comm=None, out=None, **k):
        I.event('coll', op='mpsort.take', comm=comm, args=())
        I.event('mpsort.take', source=source, key=argindex, comm=comm)
        s = self.flat(I, source)
        if isinstance(argindex, P.Comp):
            src = I.new(s.data.copy())
            f = V.pyfunc(lambda e: datum('local:permuted', s.dtype, src, e), 1, 1)
            full = argindex.full
            return P.Comp(argindex.mask, I.new(f(full.data), s.dtype, dict(full.sym)))
        a = I.resolve(argindex)
        if isinstance(a, P.Arr) and not any(isinstance(e, Unknown) for e in a.data.ravel()):
            src = I.new(s.data.copy())
            f = V.pyfunc(lambda e: datum('local:permuted', s.dtype, src, e), 1, 1)
            return I.new(f(a.data) if a.data.size else a.data.copy(), s.dtype, dict(a.sym))
        return I.unknown('mpsort.take')


# ------------------------------------------------------------------ environment

class NumpyLib(P.Stub):
    def __init__(self, I):
        pass

    def attr(self, I, name):
        if name == 'mixins':
            return NumpyLib(I)
        if name == 'NDArrayOperatorsMixin': return P.Class('NDArrayOperatorsMixin', [], {})
        if name == 'stride_tricks': return NumpyLib(I)
        if name == 'as_strided': return Native(as_strided, name)
        if name == 'recfunctions': return Quiet()
        return Unknown('numpy.lib.' + name)


def as_strided(I, x, shape=None, strides=None, **k):
    a = I.asarr(x)
    if a.ndim == 0 and strides is not None and all(s == 0 for s in I.iterate(strides)):
        dims, sym = N.mkshape(I, shape)
        d = np.broadcast_to(a.data, dims)
        d = np.array(d, dtype=object)
        r = I.new(d, a.dtype, sym)
        return r
    return I.unknown('as_strided')


def interp(size=3, rank=None, penv=None, hooks=None, cachehit=False, fresh=True):
    """a new analysis state"""
    if fresh: V.reset()
    world = Comm(size, rank, 'world')
    I = P.Interp(sources(), {})
    lib = NumpyLib(I)
    I.ext.update({
        'numpy': N.NumpyStub({'lib': lib}), 'numpy.lib': lib, 'numpy.lib.mixins': lib, 'numpy.lib.stride_tricks': lib,
        'numpy.lib.recfunctions': Quiet(),
        'functools': Functools(), 'operator': Operator(), 'numbers': Numbers(), 'collections': Collections(), 'weakref': Weakref(),
        'heapq': Heapq(), 'warnings': Quiet(), 'logging': Quiet(),
        'pfft': Pfft(), 'mpsort': Mpsort(),
        'cython': Quiet(),
    })
    m4 = P.Stub()
    m4.a_MPI = MPIMod(world)
    I.ext['mpi4py'] = m4
    I.ext['mpi4py.MPI'] = m4.a_MPI
    I.world = world
    I.MPI = m4.a_MPI
    I.penv = dict(ishape=(1, 2, 3), oshapeT=(2, 1, 3), oshapeU=(3, 1, 2), prefix='')
    if penv: I.penv.update(penv)
    I.cachehit = cachehit
    if hooks: I.hooks.update(hooks)
    return I


def meshvars(n=3, prefix=''):
    Nm = [V.var('%sN%d' % (prefix, d), isint=True, positive=True, lo=Fraction(1)) for d in range(n)]
    L = [V.var('%sL%d' % (prefix, d), positive=True) for d in range(n)]
    for d in range(n): V.ALG.draw[('v', '%sN%d' % (prefix, d), 'U')] = (4, 18)
    return Nm, L


# ------------------------------------------------------------------ Cython

def bi(name):
    def deco(f):
        N.BUILTINS[name] = Native(f, name)
        return f
    return deco


@bi('__carray__')
def c_array(I, *a):
    return I.register({'__auto__': True})


@bi('__cstruct__')
def c_struct(I, name): return P.Struct(I, name)


ENUMS = {}


@bi('__cenum__')
def c_enum(I, name):
    return ENUMS.setdefault(name, Const(name))


@bi('__caddr__')
def c_addr(I, a, i):
    a, i = I.resolve(a), I.resolve(i)
    if getattr(I, 'pointers', False) and isinstance(a, P.Arr) and a.ndim == 1 and not a.sym and isinstance(i, (int, np.integer)): return N.arr_getitem(I, a, slice(int(i), None))
    return I.unknown('address of an element')


def snap(st):
    return {k: (dict(v) if isinstance(v, dict) else v) for k, v in st.attrs.items()}


@bi('pmesh_painter_init')
def c_init(I, st):
    if not isinstance(st, P.Struct): return
    I.event('c.init', s=snap(st))
    t = I.resolve(st.attrs.get('type'))
    tk = V.akey(t) if t is not None and not isinstance(t, (Unknown, Gate, dict)) else ('c', '?')
    ns = V.u('nativesupport', tk, isint=True, lo=Fraction(1))
    s = I.resolve(st.attrs.get('support'))
    st.attrs['nativesupport'] = ns
    if isnum(s):
        st.attrs['support'] = V.ite(V.truth(V.cmp('<=', s, 0)), ns, s)
    else: st.attrs['support'] = Unknown('support')


def painterkey(I, st):
    """(key of the operation, canvas array) of an initialised painter"""
    a = st.attrs
    nd = a.get('ndim')
    if not isinstance(nd, int): raise Unsupported('number of dimensions')
    out = [V.akey(I.resolve(a['type'])), I.resolve(a['support'])]
    for f in ('order', 'scale', 'translate', 'Nmesh'):
        out.append(tuple(I.resolve(a[f].get(d)) for d in range(nd)))
    c = a.get('canvas')
    arr = getattr(c, 'arr', None)
    if arr is None: raise Unsupported('canvas')
    return out, arr


def pvec(I, st, x):
    nd = st.attrs['ndim']
    return tuple(I.resolve(x.get(d)) for d in range(nd))


def opargs(k, xv):
    """what an operation depends on: the window, the transformed position, the period and, for derivatives, the scale"""
    t = []
    for x, sc, tr in zip(xv, k[3], k[4]): t.append(V.binop('+', V.binop('*', x, sc), tr) if isnum(x) and isnum(sc) and isnum(tr) else Unknown('position'))
    if any(isinstance(x, Unknown) for x in t): raise Unsupported('position')
    dsc = []
    for o, sc in zip(k[2], k[3]):
        if isinstance(o, (int, np.integer)): dsc.append(sc if o else 0)
        else: dsc.append(sc)
    return [k[0], k[1], k[2], tuple(t), tuple(dsc), k[5]]


def rootkey(arr):
    """contents of the mesh an array is (part of)"""
    po = getattr(arr, 'partof', None)
    if po is not None: return ('x', 'part', str(po[1]), V.akey(po[0]))
    return V.akey(arr)


@bi('pmesh_painter_paint')
def c_paint(I, st, x, m, h):
    k, arr = painterkey(I, st)
    xv = pvec(I, st, x)
    I.event('c.paint', s=snap(st), k=k, arr=arr, x=xv, m=m, h=h)
    if isinstance(m, Unknown) or any(isinstance(v, (Unknown, type(None))) for v in xv):
        why = I.unknown('painting of an unknown particle')
        arr.data[...] = why
        return
    upd = np.empty(arr.data.shape, dtype=object)
    for j in np.ndindex(*arr.data.shape):
        w = V.u('local:paint', *(opargs(k, xv) + [h, list(j)]))
        upd[j] = I.binop('+', arr.data[j], paintval(w, m))
    N.arr_setitem(I, arr, Ellipsis, P.Arr(upd, arr.dtype))


def paintval(w, m):
    """contribution of the generic particle: weight times mass (a sum over the particles)"""
    return V.binop('*', w, m)


@bi('pmesh_painter_readout')
def c_readout(I, st, x, h):
    k, arr = painterkey(I, st)
    xv = pvec(I, st, x)
    v = V.u('local:readout', *(opargs(k, xv) + [h, rootkey(arr)]))
    I.event('c.readout', s=snap(st), k=k, arr=arr, x=xv, h=h, content=arr.data.copy(), value=v)
    return v


@bi('pmesh_painter_get_fwindow')
def c_fwindow(I, st, w):
    t = I.resolve(st.attrs.get('type'))
    I.event('c.fwindow', s=snap(st), w=w)
    return V.u('fwindow', V.akey(t), w)


@bi('pmesh_get_invariant_index')
def c_invariant(I, *a):
    if getattr(I, 'pointers', False):
        n, x = (I.resolve(v) for v in a[:2]) if len(a) == 4 else (None, None)
        if isinstance(x, P.Arr) and not x.sym and x.ndim == 1 and isinstance(n, (int, np.integer)):
            x = list(x.data[:n])
            if len(x) == n and all(isnum(v) and not isinstance(v, (Unknown, Gate)) for v in x): return V.u('invariant', int(n), *x, *a[2:], isint=True)
        return I.unknown('mode given to the index')
    return V.u('invariant', *[x for x in a if isnum(x)], isint=True)


def h_gridinit(I, f, args, kw):
    I.event('GridND', args=args, kw=kw)
    o = args[0]
    for n, k in zip(('edges', 'comm', 'periodic', 'DomainAssign'), range(1, 5)):
        if k < len(args): o.attrs[n] = args[k]
        elif n in kw: o.attrs[n] = kw[n]
    return None


class Env(object):
    """an analysed ParticleMesh with abstract geometry"""
    def __init__(self, size=3, dtype='f8', padded=True, ndim=3, rank=None, hooks=None, cachehit=False, penv=None, realgrid=False, plan_method=None,
                 np_=None, fresh=True, resampler=None, Nm=None):
        hk = {} if realgrid else {'GridND.__init__': h_gridinit}
        hk.update(hooks or {})
        self.I = I = interp(size, rank, penv, hk, cachehit, fresh)
        self.size, self.ndim, self.dtype = size, ndim, dtype
        self.m = I.module('pmesh.pm').env
        self.Nm, self.L = meshvars(ndim, I.penv.get('prefix', ''))
        if Nm is not None: self.Nm = list(Nm)
        kw = dict(BoxSize=I.register(list(self.L)), comm=I.world, dtype=dtype)
        if np_ is None: np_ = [1] * (ndim - 2) + [size] if padded and ndim > 1 else ([1] * (ndim - 1) + [size])
        self.npl = np_
        kw['np'] = I.register(list(np_))
        if plan_method: kw['plan_method'] = plan_method
        if resampler: kw['resampler'] = resampler
        self.pm = I.call(self.m['ParticleMesh'], [I.register(list(self.Nm))], kw)
        self.nevents = len(I.events)

    def other(self, prefix, size=None, dtype=None, ndim=None, Nm=None, L=None, **kw):
        """another mesh with its own geometry"""
        I = self.I
        nd = ndim or self.ndim
        old = dict(I.penv)
        I.penv['prefix'] = prefix
        N_, L_ = meshvars(nd, prefix)
        if Nm is not None: N_ = list(Nm)
        if L is not None: L_ = list(L)
        pm = I.call(self.m['ParticleMesh'], [I.register(list(N_))], dict(BoxSize=I.register(list(L_)), comm=I.world, dtype=dtype or self.dtype, np=I.register(list(self.npl)), **kw))
        I.penv.clear()
        I.penv.update(old)
        return pm, N_, L_

    def cls(self, n):
        return self.m[{'R': 'RealField', 'T': 'TransposedComplexField', 'U': 'UntransposedComplexField'}[n]]

    def field(self, n, name=None, pm=None):
        f = self.I.call(self.cls(n), [pm or self.pm], {})
        if name is not None:
            v = f.attrs['value']
            fillsrc(v, name)
            f.attrs['_base'].sync(self.I)
        return f

    def value(self, f):
        f.attrs['_base'].sync(self.I)
        return f.attrs['value'].data

    def mark(self):
        self.nevents = len(self.I.events)

    def events(self, *kinds):
        return [e for e in self.I.events[self.nevents:] if not kinds or e.kind in kinds]

    def call(self, f, *a, **k):
        return self.I.call(f, list(a), k)

    def method(self, o, name, *a, **k):
        return self.I.call(self.I.getattr(o, name), list(a), k)

    def particles(self, name, ncol=None, dtype='f8', n=None):
        """array of particle data with a generic element"""
        n = n if n is not None else npart()
        if ncol is None: d = np.empty((1,), dtype=object)
        else: d = np.empty((1, ncol), dtype=object)
        a = self.I.new(d, dtype, {0: n})
        fillsrc(a, name)
        return a


def npart(name='npart'):
    return V.var(name, local=True, isint=True, lo=Fraction(0))


def fillsrc(v, name):
    for j in np.ndindex(*v.data.shape):
        nm = name + str(list(j))
        if v.dtype.kind == 'c':
            v.data[j] = I_add(V.var(nm + '.re', local=True), V.var(nm + '.im', local=True))
        else: v.data[j] = V.var(nm, local=True, isint=v.dtype.kind in 'iu')


# ------------------------------------------------------------------ layouts

class LayoutStub(P.Stub):
    """the route computed by a decomposition"""
    n = 0

    def __init__(self, key=None):
        LayoutStub.n += 1
        self.key = key if key is not None else ('c', 'layout %d' % LayoutStub.n)
        self.nrecv = V.u('local:recvlength', self.key, isint=True, lo=Fraction(0))
        self.npart = None
        self.a_recvlength = self.nrecv

    def akey(self): return self.key

    def send(self, e):
        """the value of the copies: sending commutes with arithmetic"""
        if not isinstance(e, S): return e
        A = V.ALG
        out = {}
        for m, c in e.p.items():
            if not A.dd.isterm(c) and V.islocal(c): return V.u('local:exchange', self.key, e)
            t = {(): c}
            for a, x in m:
                y = A.A(a)
                k = A.atoms[a]
                if k[0] == 'inv':
                    y = V.inv(num(self.send(mk(dict(k[1])))))
                elif k[0] != 'I' and V.islocal(y): y = V.u('local:exchange', self.key, S(y)).p
                if x < 0: y = V.inv(y)
                for _ in range(abs(x)): t = A.mul(t, y)
            out = A.add(out, t)
        return mk(out)

    def collect(self, name, e, j=None):
        """the reduction of the copies: linear, and factors which were sent with the particle come back as they were"""
        if not isinstance(e, S) or name != 'gather':
            return V.u('local:' + name, self.key, e) if j is None else V.u('local:' + name, self.key, e, j)
        A = V.ALG
        out = {}
        for m, c in e.p.items():
            t, rest = {(): A.dd.T}, []
            cin = c
            if A.dd.isterm(c): t, cin = {(): c}, A.dd.T
            for a, x in m:
                k = A.atoms[a]
                if k[0] == 'u' and k[1] == 'local:exchange' and k[2] == V.akey(self.key) and x > 0 and k[3][0] == 'p':
                    y = dict(k[3][1])
                elif k[0] == 'I' or not V.islocal(A.A(a)): y = A.A(a)
                else:
                    rest.append((a, x))
                    continue
                if x < 0: y = V.inv(y)
                for _ in range(abs(x)): t = A.mul(t, y)
            g = S({tuple(rest): cin}) if rest or cin != A.dd.T else 1
            args = [self.key, g] + ([] if j is None else [j])
            out = A.add(out, A.mul(t, V.u('local:' + name, *args).p))
        return mk(out)

    def route(self, I, name, x, n):
        x = I.resolve(x)
        if isinstance(x, Gate): return I.dist(x, lambda y: self.route(I, name, y, n))
        if isinstance(x, Unknown): return x
        if isinstance(x, P.Inst) and I.isfieldlike(x): return I.unknown('field in a layout')
        a = I.asarr(x)
        if a.ndim == 0: raise P.AbsRaise('IndexError', I.site())
        one = self.send if name == 'exchange' else (lambda e: self.collect(name, e))
        f = V.pyfunc(lambda e: one(e) if isnum(e) else e, 1, 1)
        if a.sym.get(0) is None and not (a.data.shape[0] == 1 and name == 'exchange'):
            # concrete number of rows: a generic row of them
            d = np.empty((1,) + a.data.shape[1:], dtype=object)
            for j in np.ndindex(*d.shape):
                col = a.data[(slice(None),) + j[1:]]
                if any(isinstance(e, Unknown) for e in col):
                    d[j] = [e for e in col if isinstance(e, Unknown)][0]
                    continue
                fac, col = common(col)
                d[j] = V.binop('*', fac, V.u('local:' + name, self.key, I.new(col)))
        else: d = f(a.data)
        sym = {0: n}
        r = I.new(d, a.dtype, sym)
        return r

    def m_exchange(self, I, *args, **kw):
        I.event('coll', op='Layout.exchange', comm=None, args=())
        I.event('exchange', layout=self, args=args)
        r = tuple(self.route(I, 'exchange', x, self.nrecv) for x in args)
        if not args: return None
        return r[0] if len(args) == 1 else r

    def m_gather(self, I, data, mode='sum', out=None):
        I.event('coll', op='Layout.gather', comm=None, args=())
        x = I.asarr(data) if not isinstance(I.resolve(data), (Unknown, Gate)) else data
        n = self.npart if self.npart is not None else npart()
        nm = 'gather' if mode == 'sum' else 'gather ' + str(mode)
        if isinstance(n, int):
            # as many rows as particles were decomposed
            if not isinstance(x, P.Arr): return I.unknown('gather')
            d = np.empty((n,) + x.data.shape[1:], dtype=object)
            for j in np.ndindex(*d.shape):
                e = x.data[(0,) + j[1:]]
                d[j] = e if isinstance(e, Unknown) else self.collect(nm, e, j[0])
            r = I.new(d, x.dtype)
        else:
            r = self.route(I, nm, x, n)
        I.event('gather', layout=self, data=data, mode=mode, out=out, result=r.data.copy() if isinstance(r, P.Arr) else r)
        if out is not None:
            if isinstance(r, P.Arr): I.store(I.asarr(out), r)
            return out
        return r


def common(col):
    """a factor common to all elements, and the rest"""
    A = V.ALG
    fac = None
    rest = []
    for e in col:
        p = num(e)
        if len(p) != 1: return 1, col.copy()
        (m, c), = p.items()
        if not A.dd.isterm(c): return 1, col.copy()
        um = tuple((a, x) for a, x in m if not V.islocal(A.A(a)))
        if fac is None: fac = (um, c)
        if fac != (um, c): return 1, col.copy()
        rest.append(mk({tuple((a, x) for a, x in m if V.islocal(A.A(a))): A.dd.T}))
    if fac is None: return 1, col.copy()
    r = np.empty(len(rest), dtype=object)
    for k, x in enumerate(rest): r[k] = x
    return mk({fac[0]: fac[1]}), r


def h_decompose(I, f, args, kw):
    """GridND.decompose: records the arguments, returns a route"""
    b = I.bindargs(f, args, kw)
    pos = I.resolve(b['pos'])
    tr = I.resolve(b.get('transform'))
    lay = LayoutStub()
    p = I.asarr(pos) if not isinstance(pos, (Unknown, Gate)) else None
    tp = None
    if p is not None:
        lay.npart = p.shape[0]
        if p.ndim == 2:
            probe = I.new(np.array([[V.var('probe%d' % d) for d in range(p.data.shape[1])]], dtype=object), 'f8', {0: npart()})
            tp = I.call(tr, [probe], {}) if tr is not None else probe
    I.event('coll', op='GridND.decompose', comm=None, args=())
    I.event('decompose', grid=args[0], pos=p, posdata=None if p is None else p.data.copy(), smoothing=b.get('smoothing'), transformed=tp, layout=lay)
    return lay
