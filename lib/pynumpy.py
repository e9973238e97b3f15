"""Transfer functions of numpy arrays, numpy functions and the builtins."""
import math
import operator
from fractions import Fraction

import numpy as np

import pyval as V
from pyval import S, B, Gate, Unknown, Unsupported, isnum, num, mk, mkb
import pyflow as P

__all__ = ['arr_attr', 'arr_getitem', 'arr_setitem', 'flat_setitem', 'comp_attr', 'num_attr', 'BUILTINS', 'NumpyStub', 'PartView', 'Plain', 'Loose']


def Native(fn, name=''):
    return P.Native(fn, name)


def obj(shape, fill):
    d = np.empty(shape, dtype=object)
    d[...] = fill
    return d


def split_len(I, n):
    """(array extent, symbolic length or None)"""
    n = I.resolve(n)
    if isinstance(n, P.Arr) and n.ndim == 0: n = n.data[()]
    if isinstance(n, (int, np.integer)): return int(n), None
    if isinstance(n, Fraction) and n.denominator == 1: return int(n), None
    if isinstance(n, float) and n == int(n): return int(n), None
    if isinstance(n, S):
        c = V.ALG.const(n.p)
        if c is not None: return int(c), None
        return 1, n
    raise Unsupported('extent %r' % (n,))


def mkshape(I, shape):
    if isinstance(shape, P.Arr): shape = list(shape.data.ravel())
    if isnum(shape) or isinstance(shape, Gate): shape = (shape,)
    dims, sym = [], {}
    for d, n in enumerate(shape):
        k, s = split_len(I, n)
        dims.append(k)
        if s is not None: sym[d] = s
    return tuple(dims), sym


def generic_index(I, i, length):
    """is i the variable of a loop over all elements of an axis?"""
    k = V.akey(i)
    for key, r, v in I.chunks:
        if key == k and r.start == 0 and V.akey(r.stop) == V.akey(length) and r.step == 1: return True
    return False


def covering(I, s, length):
    """True: the slices of the loop cover the axis exactly; None: not a loop over chunks; False: they do not"""
    if s.step not in (None, 1): return None
    st = 0 if s.start is None else s.start
    if not isinstance(st, S): return None
    for key, r, v in I.chunks:
        if V.akey(st) != key: continue
        if s.stop is None: return False
        d = V.ALG.sub(num(s.stop), num(st))
        ok = True
        for g, p in V.ALG.split(d):
            q1 = V.ALG.sub(p, num(r.step))
            q2 = V.ALG.sub(V.ALG.add(p, num(st)), num(length))
            if V.ALG.const(q1) != 0 and V.ALG.const(q2) != 0: ok = False
        return ok and r.start == 0 and V.akey(r.stop) == V.akey(length)
    return None


def norm_index(a, idx):
    if not isinstance(idx, tuple): idx = (idx,)
    idx = list(idx)
    n = sum(1 for x in idx if x is not None and x is not Ellipsis)
    # boolean arrays use up their dimensions
    for x in idx:
        if isinstance(x, P.Arr) and x.dtype.kind == 'b': n += x.ndim - 1
    if not any(x is Ellipsis for x in idx): idx.append(Ellipsis)
    k = [i for i, x in enumerate(idx) if x is Ellipsis][0]
    idx[k:k + 1] = [slice(None)] * max(a.ndim - n, 0)
    return idx


def conc_int(x):
    if isinstance(x, (bool, np.bool_)): return None
    if isinstance(x, (int, np.integer)): return int(x)
    if isinstance(x, P.Arr) and x.ndim == 0: return conc_int(x.data[()])
    if isinstance(x, Fraction) and x.denominator == 1: return int(x)
    return None


def basic(I, a, idx):
    """(numpy index, new sym) if the index is a view with concrete bounds, else None"""
    out, sym = [], {}
    d = 0
    nd = 0
    for x in idx:
        if x is None:
            out.append(None)
            nd += 1
            continue
        ci = conc_int(x)
        if d in a.sym:
            if isinstance(x, slice):
                full = (x.start in (None, 0) if not isinstance(x.start, S) else False) and x.step in (None, 1) and (
                    x.stop is None or (not isinstance(x.stop, int) and V.akey(x.stop) == V.akey(a.sym[d])))
                if not full:
                    c = covering(I, x, a.sym[d])
                    if c is not True: return None
                out.append(slice(None))
                sym[nd] = a.sym[d]
                nd += 1
            elif isinstance(x, S) and generic_index(I, x, a.sym[d]):
                out.append(0)
            else:
                return None
        elif ci is not None:
            if not -a.data.shape[d] <= ci < a.data.shape[d]: raise P.AbsRaise('IndexError', I.site())
            out.append(ci)
        elif isinstance(x, slice):
            b = []
            for v in (x.start, x.stop, x.step):
                if v is None: b.append(None)
                else:
                    c = conc_int(v)
                    if c is None: return None
                    b.append(c)
            out.append(slice(*b))
            nd += 1
        else:
            return None
        d += 1
    return tuple(out), sym


def view(a, data, sym):
    if not isinstance(data, np.ndarray):
        return data
    v = P.Arr(data, a.dtype, sym, root=a.root)
    v.ext = a.ext
    v.cls = None
    return v


def isconcrete(arr):
    return all(isinstance(x, (int, float, bool, np.integer, np.bool_, Fraction)) for x in arr.data.ravel())


def arr_getitem(I, a, idx):
    if isinstance(idx, str):
        if a.fields is not None: return a.fields[idx]
        return I.unknown('field of an array')
    if isinstance(idx, (list,)) : idx = I.asarr(idx)
    if isinstance(idx, tuple): idx = tuple(I.asarr(x) if isinstance(x, list) else I.resolve(x) for x in idx)
    for x in (idx if isinstance(idx, tuple) else (idx,)):
        if isinstance(x, (Unknown, Gate)):
            if isinstance(x, Unknown): return x
            return I.dist(x, lambda y: arr_getitem(I, a, tuple(y if z is x else z for z in idx) if isinstance(idx, tuple) else y))
        if isinstance(x, P.Inst) and I.isfieldlike(x):
            return arr_getitem(I, a, I.asarr(x))
    if a.fields is not None:
        out = P.Arr(a.data, a.dtype, a.sym)
        out.fields = {k: arr_getitem(I, f, idx) for k, f in a.fields.items()}
        f0 = list(out.fields.values())[0]
        out.data, out.sym = f0.data, f0.sym
        return out
    if hasattr(a, 'first') and conc_int(idx) == 0: return a.first
    idx = norm_index(a, idx)
    b = basic(I, a, idx)
    if b is not None:
        return view(a, a.data[b[0]], b[1])
    for k, x in enumerate(idx):
        if k in a.sym and conc_int(x) is not None:
            # one element of a symbolic axis
            i = conc_int(x)
            rest = list(idx)
            rest[k] = slice(None)
            r = arr_getitem(I, a, tuple(rest))
            if not isinstance(r, P.Arr): return r
            ax = k - sum(1 for y in idx[:k] if conc_int(y) is not None)
            pos = i if i >= 0 else I.binop('+', a.sym[k], i)
            f = V.pyfunc(lambda e: at(e, pos), 1, 1)
            return deliver(I, a, f(np.take(r.data, 0, axis=ax)), dropsym(r.sym, ax))
    # masks
    if len(idx) >= 1 and isinstance(idx[0], P.Arr) and idx[0].dtype.kind == 'b':
        m = idx[0]
        if isconcrete(m) and not m.sym and not any(isinstance(x, P.Arr) for x in idx[1:]):
            bb = basic(I, P.Arr(np.empty((1,) * m.ndim, dtype=object)), [])
            data = a.data[np.array(m.data.tolist(), dtype=bool)]
            return copyarr(I, a, data, {})
        if len(idx) == 1 or all(isinstance(x, slice) and x == slice(None) for x in idx[1:]):
            if m.ndim == a.ndim or not m.sym: return P.Comp(m, a)
            return P.Comp(m, a)
    # one index array / abstract index
    arrs = [(k, x) for k, x in enumerate(idx) if isinstance(x, (P.Arr, S)) and not (isinstance(x, P.Arr) and x.ndim == 0 and conc_int(x) is not None)]
    if not arrs:
        sl = [(k, x) for k, x in enumerate(idx) if isinstance(x, slice)]
        for k, x in sl:
            if k in a.sym and not (x == slice(None)):
                # part of a symbolic axis
                st, sp = (0 if x.start is None else x.start), (a.sym[k] if x.stop is None else x.stop)
                rest = list(idx)
                rest[k] = slice(None)
                r = arr_getitem(I, a, tuple(rest))
                c = covering(I, x, a.sym[k])
                f = V.pyfunc(lambda e: V.u('slice', e, st, sp, isint=isint(e)) if isnum(e) else e, 1, 1)
                out = copyarr(I, a, f(r.data), dict(r.sym))
                ax = k - sum(1 for y in idx[:k] if not isinstance(y, slice))
                out.sym[ax] = I.binop('-', sp, st)
                return out
        return I.unknown('slice with abstract bounds')
    if len(arrs) == 1:
        k, x = arrs[0]
        ax = k
        pre = sum(1 for y in idx[:k] if y is None)
        rest = list(idx)
        rest[k] = slice(None)
        r = arr_getitem(I, a, tuple(rest))
        if not isinstance(r, P.Arr): return r
        ax = k - sum(1 for y in idx[:k] if conc_int(y) is not None)
        if isinstance(x, S):
            if ax in r.sym:
                f = V.pyfunc(lambda e: at(e, x), 1, 1)
                return deliver(I, a, f(np.take(r.data, 0, axis=ax)), dropsym(r.sym, ax))
            return deliver(I, a, select(r.data, x, ax), dropsym(r.sym, ax))
        if x.dtype.kind == 'b':
            if isconcrete(x) and not x.sym:
                ii = np.flatnonzero(np.array(x.data.tolist(), dtype=bool))
                return copyarr(I, a, np.take(r.data, ii, axis=ax), dict(r.sym))
            return I.unknown('masked axis')
        if ax in r.sym:
            if x.ndim != 1: return I.unknown('index array')
            if x.sym:
                base = np.moveaxis(r.data, ax, 0)[0]
                f = V.pyfunc(lambda e: at(e, x.data[0]), 1, 1)
                data = f(base)
                if not isinstance(data, np.ndarray): data = obj((), data)
                data = np.expand_dims(data, ax)
                out = copyarr(I, a, data, dict(r.sym))
                out.sym[ax] = x.sym[0]
                return out
            return I.unknown('index array')
        if isconcrete(x) and not x.sym:
            ii = np.array([int(e) for e in x.data.ravel()], dtype=int).reshape(x.data.shape)
            try:
                return copyarr(I, a, np.take(r.data, ii, axis=ax), {d + (x.ndim - 1 if d > ax else 0): n for d, n in r.sym.items()})
            except IndexError:
                raise P.AbsRaise('IndexError', I.site())
        # abstract indices of a concrete axis
        base = np.moveaxis(r.data, ax, 0)
        out = np.empty(x.data.shape + base.shape[1:], dtype=object)
        for j in np.ndindex(*x.data.shape):
            out[j] = select(base, x.data[j], 0)
        if ax != 0: return I.unknown('index array')
        sym = {d + x.ndim - 1: n for d, n in r.sym.items()}
        sym.update(x.sym)
        return copyarr(I, a, out, sym)
    if all(isinstance(x, S) for k, x in arrs):
        r = a
        for k, x in reversed(arrs):
            rest = [slice(None)] * r.ndim
            rest[k] = x
            r = arr_getitem(I, r, tuple(rest))
        rest = [y for y in idx if not isinstance(y, S)]
        if isinstance(r, P.Arr): return arr_getitem(I, r, tuple(rest)) if rest else r
        return r
    cs = [conc_list(x) for k, x in arrs]
    if all(c is not None for c in cs) and not a.sym:
        ix = list(idx)
        for (k, x), c in zip(arrs, cs): ix[k] = c
        ix = [conc_int(y) if not isinstance(y, (slice, np.ndarray)) and y is not None else y for y in ix]
        return copyarr(I, a, a.data[tuple(ix)], {})
    return I.unknown('several index arrays')


def conc_list(x):
    if isinstance(x, P.Arr) and isconcrete(x) and not x.sym and x.dtype.kind in 'iu':
        return np.array([int(e) for e in x.data.ravel()], dtype=int).reshape(x.data.shape)
    return None


def isint(e):
    return isinstance(e, (int, np.integer)) or (isinstance(e, S) and V.ALG.isintpoly(e.p))


def at(e, i):
    """element i of a generic-element content"""
    if isinstance(e, (Unknown, Gate)): return e
    if not isnum(e): return e
    if not isinstance(e, (S, B)): return e
    if isinstance(e, B): return V.bu('at', e, i, local=True)
    lo = hi = None
    if len(e.p) == 1:
        (m, c), = e.p.items()
        if len(m) == 1 and m[0][1] == 1 and c == V.ALG.dd.T: lo, hi = V.ALG.bounds[m[0][0]]
    return V.u('at', e, i, isint=isint(e), lo=lo, hi=hi)


def dropsym(sym, ax):
    return {d - (1 if d > ax else 0): n for d, n in sym.items() if d != ax}


def select(data, i, ax):
    """data[i] along a concrete axis for an abstract index"""
    base = np.moveaxis(data, ax, 0)
    n = base.shape[0]
    if not isinstance(i, S):
        return base[int(i)]
    out = base[n - 1]
    neg = V.ALG.dd.NOT(V.ge(num(i)))
    if neg != V.ALG.dd.F: pass
    for k in range(n - 2, -1, -1):
        g = V.truth(V.cmp('==', i, k))
        f = V.pyfunc(lambda x, y: V.ite(g, x, y), 2, 1)
        out = f(base[k], out)
    return out


def deliver(I, a, data, sym):
    if isinstance(data, np.ndarray) and data.ndim: return copyarr(I, a, data, sym)
    if isinstance(data, np.ndarray): return data[()]
    return data


def copyarr(I, a, data, sym):
    d = np.empty(np.shape(data), dtype=object)
    d[...] = data
    return I.new(d, a.dtype, sym)


def arr_setitem(I, a, idx, v):
    dd = V.ALG.dd
    v = I.resolve(v)
    if isinstance(v, Gate):
        return I.dist(v, lambda x: arr_setitem(I, a, idx, x))
    if isinstance(idx, str):
        if a.fields is not None: return I.store(a.fields[idx], v)
        raise Unsupported('field store')
    if isinstance(idx, list): idx = I.asarr(idx)
    if isinstance(idx, tuple): idx = tuple(I.asarr(x) if isinstance(x, list) else I.resolve(x) for x in idx)
    if isinstance(idx, P.Inst) and I.isfieldlike(idx): idx = I.asarr(idx)
    if a.fields is not None:
        if isinstance(v, P.Arr) and v.fields is not None:
            for x, y in zip(a.fields.values(), v.fields.values()): arr_setitem(I, x, idx, y)
            return
        raise Unsupported('structured store')
    if isinstance(v, P.Inst) and (I.isfieldlike(v) or v.seq is not None): v = I.asarr(v)
    if isinstance(v, (list, tuple)): v = I.asarr(v)
    if isinstance(v, P.Flat): v = I.asarr(v)
    idxs = norm_index(a, idx)
    b = basic(I, a, idxs)
    if b is not None:
        scalar = not any(isinstance(x, slice) or x is None for x in b[0])
        if scalar:
            if isinstance(v, P.Arr):
                if v.data.size != 1: raise P.AbsRaise('ValueError', I.site())
                v = v.data.reshape(-1)[0]
            a.data[b[0]] = P.castto(a.dtype, v)
            return
        t = view(a, a.data[b[0]], b[1])
        if isinstance(v, P.Comp): raise Unsupported('store of a masked array')
        return I.store(t, v)
    x0 = idxs[0]
    if isinstance(x0, P.Arr) and x0.dtype.kind == 'b' and all(isinstance(x, slice) and x == slice(None) for x in idxs[1:]):
        m = x0
        if m.data.size == 0: return
        if isinstance(v, P.Comp):
            if not P.same(v.mask, m): raise Unsupported('differently masked arrays')
            val = v.full
        else: val = v
        if isinstance(val, P.Arr) and not isinstance(v, P.Comp) and val.ndim and val.data.size != 1:
            val = None
        md = m.data.reshape(m.data.shape + (1,) * (a.ndim - m.ndim))
        if isinstance(v, Unknown): val = v
        if val is None:
            # packed values: the k-th true element receives the k-th value
            src = v
            if isconcrete(m) and not m.sym and not src.sym and not a.sym and m.ndim == a.ndim:
                mm = np.array([bool(e) for e in m.data.ravel()], dtype=bool).reshape(m.data.shape)
                if src.ndim == 1 and src.data.size != mm.sum(): raise P.AbsRaise('ValueError', I.site())
                f = V.pyfunc(lambda n: P.castto(a.dtype, n), 1, 1)
                a.data[mm] = f(src.data)
                return
            if src.sym or src.ndim == 1:
                f = V.pyfunc(lambda c, o: V.ite(V.truth(c), Unknown('scatter'), o) if not isinstance(c, Unknown) else c, 2, 1)
                a.data[...] = f(md, a.data)
                return
            raise Unsupported('masked store of an array')
        vd = val.data if isinstance(val, P.Arr) else obj((), val)
        f = V.pyfunc(lambda c, n, o: (V.ite(V.truth(c), P.castto(a.dtype, n), o) if not isinstance(c, Unknown) else c), 3, 1)
        a.data[...] = f(md, vd, a.data)
        return
    # one abstract index
    arrs = [(k, x) for k, x in enumerate(idxs) if isinstance(x, (P.Arr, S)) and conc_int(x) is None]
    if len(arrs) == 0:
        sl = [(k, x) for k, x in enumerate(idxs) if isinstance(x, slice) and x != slice(None)]
        for k, x in sl:
            st = 0 if x.start is None else x.start
            if k in a.sym:
                rest = list(idxs)
                rest[k] = slice(None)
                t = arr_getitem(I, a, tuple(rest))
                sp = a.sym[k] if x.stop is None else x.stop
                if isinstance(v, P.Arr) and v.fields is None:
                    vd = np.broadcast_to(v.data, t.data.shape) if True else None
                else: vd = obj((), v)
                if covering(I, x, a.sym[k]) is False:
                    g = V.bvar('inslice:%s' % (V.akey(I.binop('-', sp, st)),)).g
                    f = V.pyfunc(lambda n, o: V.ite(g, P.castto(a.dtype, n), o), 2, 1)
                else:
                    f = V.pyfunc(lambda n, o: scatter('putslice', o, (st, sp), n), 2, 1)
                t.data[...] = f(vd, t.data)
                return
            n = a.data.shape[k]
            sp = n if x.stop is None else x.stop
            rest = list(idxs)
            rest[k] = slice(None)
            t = arr_getitem(I, a, tuple(rest))
            if isinstance(v, P.Arr) and v.data.size != 1: raise Unsupported('store into an abstract slice')
            val = v.data.reshape(-1)[0] if isinstance(v, P.Arr) else v
            ax = k - sum(1 for y in idxs[:k] if conc_int(y) is not None)
            tt = np.moveaxis(t.data, ax, 0)
            for j in range(n):
                g = dd.AND(V.truth(V.cmp('>=', j, st)), V.truth(V.cmp('<', j, sp)))
                f = V.pyfunc(lambda o: V.ite(g, P.castto(a.dtype, val), o), 1, 1)
                tt[j:j + 1][...] = f(tt[j:j + 1])
            return
        raise Unsupported('store at %r' % (idx,))
    if len(arrs) == 1:
        k, x = arrs[0]
        rest = list(idxs)
        rest[k] = slice(None)
        t = arr_getitem(I, a, tuple(rest))
        ax = k - sum(1 for y in idxs[:k] if conc_int(y) is not None)
        if isinstance(x, S) and ax not in t.sym:
            tt = np.moveaxis(t.data, ax, 0)
            val = v
            for j in range(tt.shape[0]):
                g = V.truth(V.cmp('==', x, j))
                vd = val.data if isinstance(val, P.Arr) else obj((), val)
                f = V.pyfunc(lambda n, o: V.ite(g, P.castto(a.dtype, n), o), 2, 1)
                tt[j:j + 1][...] = f(vd, tt[j:j + 1])
            return
        if ax in t.sym:
            xi = x.data.reshape(-1)[0] if isinstance(x, P.Arr) else x
            if isinstance(v, P.Arr):
                vd = v.data
            else: vd = obj((), v)
            f = V.pyfunc(lambda n, o: scatter('put', o, xi, n), 2, 1)
            t.data[...] = f(vd, t.data)
            return
        c = conc_list(x)
        if c is not None:
            vd = v.data if isinstance(v, P.Arr) else obj((), v)
            ix = [slice(None)] * t.ndim
            ix[ax] = c
            f = V.pyfunc(lambda n: P.castto(a.dtype, n), 1, 1)
            t.data[tuple(ix)] = f(vd) if True else vd
            return
        if x.dtype.kind == 'b' and isconcrete(x):
            ix = [slice(None)] * t.ndim
            ix[ax] = np.array(x.data.tolist(), dtype=bool)
            t.data[tuple(ix)] = v.data if isinstance(v, P.Arr) else v
            return
    elif all(isinstance(x, S) for k, x in arrs) and not a.sym and all(conc_int(y) is not None or isinstance(y, S) for y in idxs):
        for j in np.ndindex(*a.data.shape):
            g = dd.T
            for q, y in zip(j, idxs):
                g = dd.AND(g, V.truth(V.cmp('==', y, q)))
            a.data[j] = V.ite(g, P.castto(a.dtype, v), a.data[j])
        return
    raise Unsupported('store at %r' % (idx,))


def scatter(kind, old, i, new):
    if not isnum(old) or not isnum(new):
        return Unknown('scatter')
    return V.u(kind, old, i, new, isint=isint(old) and isint(new))


def flat_setitem(I, o, i, v):
    a = o.arr
    v = I.resolve(v)
    if i is Ellipsis or (isinstance(i, slice) and i == slice(None)):
        src = I.asarr(v) if not isnum(v) else v
        if isinstance(src, P.Arr):
            if src.data.size == a.data.size and not a.sym:
                vals = list(src.data.ravel())
                for j, k in enumerate(np.ndindex(*a.data.shape)): a.data[k] = P.castto(a.dtype, vals[j])
                return
            if src.sym and a.sym and src.data.size == a.data.size:
                a.data[...] = src.data.reshape(a.data.shape)
                return
        elif isnum(v):
            I.store(a, v)
            return
    raise Unsupported('store into flat')


# ------------------------------------------------------------------ attributes

def reduce(I, a, f, axis, keepdims=False, name='sum'):
    """reduction over concrete axes; symbolic axes give an uninterpreted reduction"""
    if axis is None: axes = list(range(a.ndim))
    elif isinstance(axis, tuple): axes = [x % a.ndim for x in axis]
    else:
        axes = [conc_int(axis) % a.ndim] if a.ndim else []
    data = a.data
    for ax in sorted(axes, reverse=True):
        m = np.moveaxis(data, ax, 0)
        if ax in a.sym:
            g = V.pyfunc(lambda e: V.u('local:' + name, e, a.sym[ax], isint=isint(e)) if isnum(e) and not isinstance(e, B) else
                              (V.bu(name, e, a.sym[ax], local=True) if isinstance(e, B) else e), 1, 1)
            r = g(m[0])
            if not isinstance(r, np.ndarray): r = obj((), r)
        else:
            r = f(m)
        data = np.expand_dims(r, ax) if keepdims else r
        if not keepdims:
            pass
        if not isinstance(data, np.ndarray): data = obj((), data)
    sym = {}
    if keepdims: sym = {d: n for d, n in a.sym.items() if d not in axes}
    else: sym = {d - sum(1 for x in axes if x < d): n for d, n in a.sym.items() if d not in axes}
    return data, sym


def fold(I, a, op, init, axis, name, dtype=None, keepdims=False):
    bin_ = V.pyfunc(op, 2, 1)

    def f(m):
        if m.shape[0] == 0:
            return obj(m.shape[1:], init)
        r = m[0]
        if not isinstance(r, np.ndarray): r = obj((), r)
        else: r = r.copy()
        for k in range(1, m.shape[0]):
            r = bin_(r, m[k])
            if not isinstance(r, np.ndarray): r = obj((), r)
        return r
    data, sym = reduce(I, a, f, axis, keepdims, name)
    if data.ndim == 0: return data[()]
    return I.new(data, dtype or a.dtype, sym)


def extremum(I, a, name, axis=None, initial=None):
    if isinstance(a, P.Comp): return I.unknown('extremum of a masked array')

    def f(m):
        if m.shape[0] == 0: return obj(m.shape[1:], 0)
        cols = m.reshape(m.shape[0], -1)
        out = np.empty(cols.shape[1], dtype=object)
        for j in range(cols.shape[1]): out[j] = extreme(name, list(cols[:, j]))
        return out.reshape(m.shape[1:])
    if axis is None and not a.sym:
        vals = list(a.data.ravel())
        if initial is not None: vals.append(initial)
        if not vals: raise P.AbsRaise('ValueError', I.site())
        return extreme(name, vals)
    data, sym = reduce(I, a, f, axis, False, name)
    if data.ndim == 0:
        r = data[()]
        return extreme(name, [r, initial]) if initial is not None else r
    return I.new(data, a.dtype, sym)


class Ord(object):
    """a value with the order of Python; raises Unsupported where the order is not known"""
    def __init__(self, I, v): self.I, self.v = I, I.resolve(v)

    def less(self, a, b):
        a, b = self.I.resolve(a), self.I.resolve(b)
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            for x, y in zip(a, b):
                if self.same(x, y): continue
                return self.less(x, y)
            return len(a) < len(b)
        if isinstance(a, str) and isinstance(b, str): return a < b
        return self.flag(V.cmp('<', self.one(a), self.one(b)))

    def same(self, a, b):
        a, b = self.I.resolve(a), self.I.resolve(b)
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)): return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if isinstance(a, str) and isinstance(b, str): return a == b
        return self.flag(V.cmp('==', self.one(a), self.one(b)))

    def one(self, a):
        if isinstance(a, P.Arr) and a.data.size == 1 and not a.sym: a = self.I.resolve(a.data.reshape(-1)[0])
        if not isnum(a) or isinstance(a, (Unknown, Gate)): raise Unsupported('order of abstract values')
        return a

    def flag(self, g):
        g = V.truth(g)
        if g == V.ALG.dd.T: return True
        if g == V.ALG.dd.F: return False
        raise Unsupported('order of abstract values')

    def __lt__(self, o): return self.less(self.v, o.v)

    def __gt__(self, o): return self.less(o.v, self.v)

    def __le__(self, o): return not self.less(o.v, self.v)

    def __ge__(self, o): return not self.less(self.v, o.v)

    def __eq__(self, o): return self.same(self.v, o.v)

    __hash__ = None


class Asis:
    @staticmethod
    def resolve(x): return x


def splitting(): return V.ALG.splitter is not None


def extreme(name, vals):
    if splitting() and vals and all(isnum(x) and not isinstance(x, (Unknown, Gate)) for x in vals):
        return (max if name == 'max' else min)([Ord(Asis, x) for x in vals]).v
    if any(isinstance(x, Unknown) for x in vals): return [x for x in vals if isinstance(x, Unknown)][0]
    if any(not isnum(x) for x in vals): return Unknown('extremum')
    if all(not isinstance(x, (S, B)) for x in vals):
        return max(vals) if name == 'max' else min(vals)
    if len(vals) == 2:
        a, b = vals
        g = V.truth(V.cmp('>=' if name == 'max' else '<=', a, b))
        return V.ite(g, a, b)
    keys = sorted(set(V.akey(x) for x in vals), key=repr)
    return S(V.ALG.A(V.ALG.atom(('u', name) + tuple(keys), isint=all(isint(x) for x in vals))))


def conv(f):
    g = V.pyfunc(f, 1, 1)

    def h(I, a):
        r = g(a.data)
        return r if isinstance(r, np.ndarray) else obj((), r)
    return h


def tolist(x):
    return x


def reshape(I, a, shape):
    if len(shape) == 1 and not isnum(shape[0]): shape = shape[0]
    if isinstance(shape, P.Arr): shape = list(shape.data.ravel())
    if isnum(shape): shape = (shape,)
    shape = list(shape)
    if a.sym:
        # only shapes which keep the symbolic axis first
        if list(a.sym) == [0]:
            n0 = a.sym[0]
            s0 = shape[0]
            if s0 == -1 or (not isinstance(s0, int) and V.akey(s0) == V.akey(n0)):
                rest = [conc_int(x) for x in shape[1:]]
                if all(x is not None for x in rest):
                    try:
                        return view(a, a.data.reshape([1] + rest), {0: n0})
                    except ValueError:
                        pass
            if len(shape) == a.ndim and all((d in a.sym) == (not isinstance(s, int) or s == -1) for d, s in enumerate(shape)):
                return a
        if len(a.sym) == 1:
            # the symbolic axis among axes of extent one
            k = list(a.sym)[0]
            big = [d for d, s in enumerate(shape) if isinstance(s, S) or s == -1]
            if a.data.size == 1 and len(big) == 1:
                return view(a, a.data.reshape([1] * len(shape)), {big[0]: a.sym[k]})
        return I.unknown('reshape of an array with a symbolic axis')
    dims = []
    for s in shape:
        c = conc_int(s)
        if c is None: return I.unknown('reshape to an abstract shape')
        dims.append(c)
    try:
        d = a.data.reshape(dims)
    except ValueError:
        raise P.AbsRaise('ValueError', I.site() + ' (reshape)')
    if d.size and not np.shares_memory(d, a.data): return copyarr(I, a, d, {})
    return view(a, d, {})


class Loose(P.Stub):
    """record that accepts any attribute"""
    def __init__(self, **kw):
        for k, v in kw.items(): setattr(self, 'a_' + k, v)


class PartView(P.Stub):
    """real or imaginary part of a complex array, written through"""
    def __init__(self, arr, which):
        self.arr, self.which = arr, which

    def value(self, I):
        if self.arr.dtype.kind != 'c':
            if self.which == 0: return self.arr
            return I.ufunc(lambda x: 0, self.arr)
        r = I.ufunc(lambda x: mk(V.parts(x)[self.which]), self.arr, dtype='f8' if self.arr.dtype.itemsize == 16 else 'f4')
        return r


class RealArr(P.Arr):
    pass


def part(I, a, which):
    if a.dtype.kind != 'c':
        if which == 0: return a
        r = I.ufunc(lambda x: 0, a)
        return r
    dt = 'f8' if a.dtype.itemsize == 16 else 'f4'
    f = V.pyfunc(lambda x: mk(V.parts(x)[which]) if isnum(x) else x, 1, 1)
    d = f(a.data)
    if not isinstance(d, np.ndarray): return d
    r = I.new(d, dt, dict(a.sym))
    r.partof = (a, which)
    r.__class__ = PartArr
    return r


class PartArr(P.Arr):
    """copy of a part; stores are written through by arr_setitem hooks"""
    partof = None


_raw_setitem = arr_setitem


def arr_setitem(I, a, idx, v):              # noqa
    _raw_setitem(I, a, idx, v)
    po = getattr(a, 'partof', None)
    if po is not None:
        b, which = po
        ia = V.mk(V.ALG.A(V.ALG.aid[('I',)]))

        def put(o, n):
            if not isnum(o): return o
            if isinstance(n, Unknown): return n
            re, im = V.parts(o)
            if which == 0: re = num(n)
            else: im = num(n)
            return mk(V.ALG.add(re, V.ALG.mul(im, num(ia))))
        f = V.pyfunc(put, 2, 1)
        b.data[...] = f(b.data, a.data)


class Plain(P.Stub):
    """complex array viewed as pairs of reals"""
    def __init__(self, arr, dtype):
        self.arr = arr
        self.a_dtype = dtype

    def split(self, I, i):
        if not isinstance(i, tuple): raise Unsupported('plain view index')
        return i[:-1], conc_int(i[-1]) if conc_int(i[-1]) is not None else i[-1]

    def getitem(self, I, i):
        j, w = self.split(I, i)
        x = I.getitem(self.arr, j)
        if not isnum(x): return I.unknown('plain view')
        re, im = V.parts(x)
        if isinstance(w, S):
            return V.ite(V.truth(V.cmp('==', w, 0)), mk(re), mk(im))
        return mk(re) if w == 0 else mk(im)

    def setitem(self, I, i, v):
        j, w = self.split(I, i)
        x = I.getitem(self.arr, j)
        if not isnum(x) or not isnum(v): raise Unsupported('plain view store')
        re, im = V.parts(x)
        ia = V.ALG.A(V.ALG.aid[('I',)])
        v0 = mk(V.ALG.add(num(v), V.ALG.mul(im, ia)))
        v1 = mk(V.ALG.add(re, V.ALG.mul(num(v), ia)))
        if isinstance(w, S): I.setitem(self.arr, j, V.ite(V.truth(V.cmp('==', w, 0)), v0, v1))
        else: I.setitem(self.arr, j, v0 if w == 0 else v1)


def transpose(I, a, axes):
    if len(axes) == 1 and not isnum(axes[0]) and axes[0] is not None: axes = I.iterate(axes[0])
    if len(axes) == 0 or axes[0] is None: axes = list(range(a.ndim))[::-1]
    ax = [conc_int(x) for x in axes]
    if any(x is None for x in ax): return I.unknown('transposition')
    ax = [x % a.ndim for x in ax]
    if sorted(ax) != list(range(a.ndim)): raise P.AbsRaise('ValueError', I.site())
    return view(a, a.data.transpose(ax), {k: a.sym[d] for k, d in enumerate(ax) if d in a.sym})


def arr_attr(I, a, name):
    if name in a.attrs: return a.attrs[name]
    if a.fields is not None:
        if name == 'dtype': return a.dtype
        if name == 'shape': return a.shape
        if name == 'ndim': return a.ndim
        if name == 'copy':
            def f(I):
                return copystruct(I, a)
            return Native(f, name)
        if name == 'take':
            def f(I, ind, axis=None, **k):
                return arr_getitem(I, a, ind)
            return Native(f, name)
        if name == 'astype':
            return Native(lambda I, dt, **k: copystruct(I, a), name)
    if name == 'shape': return a.shape
    if name == 'ndim': return a.ndim
    if name == 'dtype': return a.dtype
    if name == 'itemsize': return a.dtype.itemsize
    if name == 'size':
        r = 1
        for n in a.shape: r = I.binop('*', r, n)
        return r
    if name == 'strides': 
        return tuple(s // 8 * a.dtype.itemsize for s in a.data.strides)
    if name == 'flags': return Flags(a)
    if name == 'T': return transpose(I, a, ())
    if name == 'flat': return P.Flat(a)
    if name == 'real': return part(I, a, 0)
    if name == 'imag': return part(I, a, 1)
    if name == 'base': return a.root if a.root is not a else None
    if name == 'data': return Data(a)
    if name == 'nbytes': return I.binop('*', arr_attr(I, a, 'size'), a.dtype.itemsize)
    m = METHODS.get(name)
    if m is not None: return Native(lambda I, *args, **kw: m(I, a, *args, **kw), name)
    if name.startswith('__') and name.endswith('__'):
        if name == '__getitem__': return Native(lambda I, i: I.getitem(a, i), name)
        if name == '__setitem__': return Native(lambda I, i, v: I.setitem(a, i, v), name)
        if name == '__len__': return Native(lambda I: a.shape[0], name)
    return I.unknown('array.' + name)


class Data(P.Stub):
    def __init__(self, arr): self.arr = arr

    def akey(self): return ('x', 'data', ('c', id(self.arr.root.data)))


class Flags(P.Stub):
    def __init__(self, a): self.a = a

    def attr(self, I, name):
        if name in ('c_contiguous', 'C_CONTIGUOUS'): return bool(self.a.data.flags.c_contiguous)
        return self.a.flags.get(name, True)

    def setattr(self, I, name, v):
        self.a.flags[name] = v

    def getitem(self, I, i):
        return self.attr(I, i.lower())

    def setitem(self, I, i, v):
        self.a.flags[i.lower()] = v


def copystruct(I, a):
    out = P.Arr(a.data, a.dtype, dict(a.sym))
    out.fields = {k: copyarr(I, f, f.data, dict(f.sym)) for k, f in a.fields.items()}
    return out


METHODS = {}


def meth(name):
    def d(f):
        METHODS[name] = f
        return f
    return d


@meth('copy')
def m_copy(I, a, order='C'):
    if a.fields is not None: return copystruct(I, a)
    return copyarr(I, a, a.data, dict(a.sym))


@meth('astype')
def m_astype(I, a, dtype, copy=True, **kw):
    dt = P.todtype(dtype) if not isinstance(dtype, Unknown) else a.dtype
    if dt.names is not None: return m_copy(I, a)
    f = V.pyfunc(lambda x: P.castto(dt, x), 1, 1)
    d = f(a.data)
    if not isinstance(d, np.ndarray): d = obj((), d)
    return I.new(d, dt, dict(a.sym))


@meth('sum')
def m_sum(I, a, axis=None, dtype=None, out=None, keepdims=False):
    dt = P.todtype(dtype) if dtype is not None and not isinstance(dtype, Unknown) else (np.dtype('i8') if a.dtype.kind in 'bi' else a.dtype)
    r = fold(I, P.Arr(bool2int(a.data), a.dtype, a.sym) if a.dtype.kind == 'b' else a, lambda x, y: V.binop('+', x, y), 0, axis, 'sum', dt, keepdims)
    if isinstance(r, P.Arr) and r.dtype.kind != dt.kind: r = m_astype(I, r, dt)
    elif isnum(r): r = P.castto(dt, r) if dt.kind in 'iu' else r
    if out is not None:
        I.store(out, r)
        return out
    return r


def bool2int(d):
    f = V.pyfunc(lambda x: mk(num(x)) if isnum(x) else x, 1, 1)
    r = f(d)
    return r if isinstance(r, np.ndarray) else obj((), r)


@meth('prod')
def m_prod(I, a, axis=None, dtype=None, out=None):
    return fold(I, a, lambda x, y: V.binop('*', x, y), 1, axis, 'prod', dtype)


@meth('mean')
def m_mean(I, a, axis=None, dtype=None, **kw):
    if a.sym and axis is None: return I.unknown('mean')
    s = m_sum(I, a, axis=axis, dtype=dtype or ('f8' if a.dtype.kind in 'bi' else None))
    n = a.data.size if axis is None else a.data.shape[axis]
    return I.binop('/', s, n)


@meth('all')
def m_all(I, a, axis=None, **kw):
    return fold(I, P.Arr(tobool(a), '?', a.sym), lambda x, y: V.binop('&', x, y), True, axis, 'all', '?')


@meth('any')
def m_any(I, a, axis=None, **kw):
    return fold(I, P.Arr(tobool(a), '?', a.sym), lambda x, y: V.binop('|', x, y), False, axis, 'any', '?')


def tobool(a):
    f = V.pyfunc(lambda x: x if isinstance(x, (bool, B, Unknown)) else mkb(V.truth(x)), 1, 1)
    r = f(a.data)
    return r if isinstance(r, np.ndarray) else obj((), r)


@meth('max')
def m_max(I, a, axis=None, initial=None, **kw): return extremum(I, a, 'max', axis, initial)


@meth('min')
def m_min(I, a, axis=None, initial=None, **kw): return extremum(I, a, 'min', axis, initial)


@meth('argmax')
def m_argmax(I, a, axis=None):
    if isconcrete(a) and not a.sym: return int(np.argmax([float(x) for x in a.data.ravel()]))
    if splitting() and a.data.size and not a.sym and axis is None:
        ks = [Ord(I, x) for x in a.data.ravel()]
        return max(range(len(ks)), key=lambda k: ks[k])
    return V.u('argmax', tuple(a.data.ravel()), isint=True, lo=Fraction(0), hi=Fraction(a.data.size - 1))


@meth('argmin')
def m_argmin(I, a, axis=None):
    if isconcrete(a) and not a.sym and axis is None: return int(np.argmin([float(x) for x in a.data.ravel()]))
    if splitting() and a.data.size and not a.sym and axis is None:
        ks = [Ord(I, x) for x in a.data.ravel()]
        return min(range(len(ks)), key=lambda k: ks[k])
    return V.u('argmin', tuple(a.data.ravel()), isint=True, lo=Fraction(0), hi=Fraction(a.data.size - 1))


@meth('cumsum')
def m_cumsum(I, a, axis=None, dtype=None, **kw):
    if a.ndim == 1 and not a.sym:
        out = np.empty(a.data.shape, dtype=object)
        s = 0
        for k in range(a.data.size):
            s = V.binop('+', s, a.data[k])
            out[k] = s
        return I.new(out, a.dtype)
    if a.ndim == 1:
        return I.new(conv(lambda x: V.u('cumsum', x, isint=isint(x)))(I, a), a.dtype, dict(a.sym))
    return I.unknown('cumsum')


@meth('take')
def m_take(I, a, indices, axis=None, mode=None, out=None):
    if axis is None and a.ndim != 1: return I.unknown('take')
    ax = 0 if axis is None else axis % a.ndim
    ind = indices if isinstance(indices, (P.Arr, S, int)) else I.asarr(indices)
    idx = [slice(None)] * a.ndim
    idx[ax] = ind
    return arr_getitem(I, a, tuple(idx))


@meth('argsort')
def m_argsort(I, a, axis=-1, **kw):
    if isconcrete(a) and not a.sym and a.ndim == 1:
        o = np.argsort(np.array([float(x) for x in a.data.ravel()]), kind='stable')
        return I.new(np.array([int(x) for x in o], dtype=object), 'i8')
    if splitting() and a.ndim == 1 and not a.sym:
        ks = [Ord(I, x) for x in a.data]
        o = sorted(range(len(ks)), key=lambda k: ks[k])
        return I.new(np.array(o + [None], dtype=object)[:-1], 'i8')
    if a.ndim == 1 and a.sym:
        return I.new(conv(lambda x: V.u('argsort', x, isint=True, lo=Fraction(0)))(I, a), 'i8', dict(a.sym))
    return I.unknown('argsort')


@meth('reshape')
def m_reshape(I, a, *shape, **kw): return reshape(I, a, shape)


@meth('transpose')
def m_transpose(I, a, *axes): return transpose(I, a, axes)


@meth('ravel')
def m_ravel(I, a, order='C'):
    if a.ndim == 1: return a
    if a.sym: return reshape(I, a, (-1,)) if a.data.size == 1 else I.unknown('ravel')
    d = a.data.reshape(-1)
    return view(a, d, {}) if np.shares_memory(d, a.data) else copyarr(I, a, d, {})


@meth('flatten')
def m_flatten(I, a, order='C'):
    r = m_ravel(I, a)
    return m_copy(I, r) if isinstance(r, P.Arr) else r


@meth('view')
def m_view(I, a, dtype=None, type=None):
    if isinstance(dtype, tuple): return Plain(a, P.todtype(dtype[0]))
    if dtype is not None and not isinstance(dtype, P.Class): return I.unknown('view')
    v = view(a, a.data, dict(a.sym))
    c = type if type is not None else dtype
    if isinstance(c, P.Class): v.cls = c
    return v


@meth('clip')
def m_clip(I, a, lo=None, hi=None, out=None, **kw):
    lo = kw.get('min', lo)
    hi = kw.get('max', hi)
    r = a
    if lo is not None: r = I.ufunc(lambda x, y: extreme('max', [x, y]), r, lo)
    if hi is not None: r = I.ufunc(lambda x, y: extreme('min', [x, y]), r, hi)
    if out is not None:
        I.store(out, r)
        return out
    return r


@meth('conj')
def m_conj(I, a): return I.ufunc(V.conj, a)


METHODS['conjugate'] = m_conj


@meth('tolist')
def m_tolist(I, a):
    if a.sym: return I.unknown('tolist')
    if a.ndim == 0: return a.data[()]
    if a.ndim == 1: return I.register(list(a.data))
    return I.register([m_tolist(I, arr_getitem(I, a, k)) for k in range(a.data.shape[0])])


@meth('item')
def m_item(I, a, *i):
    if a.data.size == 1: return a.data.reshape(-1)[0]
    return I.unknown('item')


@meth('fill')
def m_fill(I, a, v): I.store(a, v)


@meth('squeeze')
def m_squeeze(I, a, axis=None):
    if a.sym: return I.unknown('squeeze')
    return view(a, a.data.squeeze(axis) if axis is not None else a.data.squeeze(), {})


@meth('swapaxes')
def m_swapaxes(I, a, x, y):
    ax = list(range(a.ndim))
    ax[x], ax[y] = ax[y], ax[x]
    return transpose(I, a, (ax,))


@meth('nonzero')
def m_nonzero(I, a): return np_nonzero(I, a)


@meth('dot')
def m_dot(I, a, b):
    b = I.asarr(I.resolve(b))
    if a.ndim == 1 and b.ndim == 1: return np_inner(I, a, b)
    if a.ndim == 2 and b.ndim in (1, 2): return np_einsum(I, 'ij,j->i' if b.ndim == 1 else 'ij,jk->ik', a, b)
    return I.unknown('dot')


@meth('repeat')
def m_repeat(I, a, repeats=1, axis=None):
    n = conc_int(repeats) if isnum(repeats) else None
    if n is None or a.sym or a.fields is not None: return I.unknown('repeat')
    return I.new(np.repeat(a.data, n, axis=axis), a.dtype)


@meth('sort')
def m_sort(I, a, **k): raise Unsupported('sort')


@meth('setflags')
def m_setflags(I, a, write=None, **k):
    if write is not None: a.flags['writeable'] = write


@meth('put')
def m_put(I, a, i, v): return arr_setitem(I, a, i, v)


@meth('tobytes')
def m_tobytes(I, a, *k): return I.unknown('tobytes')


def comp_attr(I, c, name):
    if name in ('real', 'imag'):
        f = I.asarr(c.full)
        return P.Comp(c.mask, part(I, f, 0 if name == 'real' else 1))
    if name in ('copy',): return Native(lambda I: P.Comp(c.mask, m_copy(I, c.full)), name)
    if name == 'sum':
        def f(I, *a, **k):
            z = I.ufunc(lambda m, x: V.ite(V.truth(m), x, 0), c.mask, c.full)
            return m_sum(I, z)
        return Native(f, name)
    if name == 'dtype': return c.full.dtype
    if name in ('conj', 'conjugate'): return Native(lambda I: P.Comp(c.mask, m_conj(I, c.full)), name)
    return I.unknown('masked array.' + name)


def num_attr(I, x, name):
    if name == 'real': return mk(V.parts(x)[0]) if isinstance(x, S) else x.real
    if name == 'imag': return mk(V.parts(x)[1]) if isinstance(x, S) else x.imag
    if name in ('conj', 'conjugate'): return Native(lambda I: V.conj(x), name)
    if name == 'dtype': return P.scalardtype([x])
    if name == 'ndim': return 0
    if name == 'shape': return ()
    if name == 'size': return 1
    if name == 'astype': return Native(lambda I, dt, **k: P.castto(P.todtype(dt), x), name)
    if name in ('sum', 'max', 'min', 'all', 'any', 'copy', 'item', 'prod'): return Native(lambda I, *a, **k: x, name)
    if name == 'is_integer': return Native(lambda I: float(x).is_integer(), name)
    if name == 'itemsize': return P.scalardtype([x]).itemsize
    if name == 'clip': return Native(lambda I, lo=None, hi=None: extreme('min', [extreme('max', [x, lo]), hi]), name)
    if name == 'reshape': return Native(lambda I, *s: reshape(I, I.asarr(x), s), name)
    if name == 'denominator' or name == 'numerator': return getattr(x, name)
    return I.unknown('number.' + name)


# ------------------------------------------------------------------ numpy

class NumpyStub(P.Stub):
    def __init__(self, extra=None):
        self.cache = {}
        self.extra = extra or {}

    def attr(self, I, name):
        if name in self.extra: return self.extra[name]
        if name in self.cache: return self.cache[name]
        r = self.make(I, name)
        self.cache[name] = r
        return r

    def make(self, I, name):
        if name in ('int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'float32', 'float64', 'complex64', 'complex128', 'intp',
                    'intc', 'bool_', 'bool8', 'single', 'double', 'float_', 'int_', 'uint64'):
            dt = np.dtype(name.rstrip('_') if name in ('bool_', 'float_', 'int_') else name)

            def f(I, x=0, **k):
                x = I.resolve(x)
                if isnum(x): return P.castto(dt, x)
                if isinstance(x, Unknown): return x
                return m_astype(I, I.asarr(x), dt)
            n = Native(f, name)
            n.dtype = dt
            return n
        if name == 'pi': return PI()
        if name == 'newaxis': return None
        if name in ('inf', 'infty', 'Inf'): return float('inf')
        if name == 'nan': return float('nan')
        if name == 'e': return Fraction(math.e)
        if name in ('ndarray', 'flatiter', 'generic', 'ufunc', 'integer', 'floating', 'number', 'complexfloating', 'bool_'): return NpType(name)
        if name == 'mgrid': return MGrid(False)
        if name == 'ogrid': return MGrid(True)
        if name == 'r_': return R_()
        if name == 's_': return S_()
        if name in ('lib', 'linalg', 'fft', 'random', 'testing', 'core', 'polynomial'): return P.Unknown('numpy.' + name)
        if name in UFUNCS: return UFunc(name)
        if name in UFUNCS2: return UFunc2(name)
        f = NP.get(name)
        if f is not None: return Native(f, name)
        return Unknown('numpy.' + name)


def PI():
    a = V.ALG.atom(('v', 'pi', 'U'), lo=Fraction(314159, 100000), hi=Fraction(314160, 100000))
    return S(V.ALG.A(a))


class NpType(P.Stub):
    def __init__(self, name): self.name = name

    def akey(self): return ('c', 'numpy.' + self.name)

    def __eq__(self, o): return isinstance(o, NpType) and o.name == self.name

    def __hash__(self): return hash(self.name)


def scal(op):
    return lambda x, y: P.Interp.scalar(None, op, x, y)


def logical(op):
    def f(x, y):
        if isinstance(x, Unknown): return x
        if isinstance(y, Unknown): return y
        return V.binop(op, mkb(V.truth(x)), mkb(V.truth(y)))
    return f


def absval(x):
    if isinstance(x, Unknown): return x
    if isinstance(x, S):
        if V.hascomplex(x.p):
            re, im = V.parts(x)
            return V.fn('sqrt', mk(V.ALG.add(V.ALG.mul(re, re), V.ALG.mul(im, im))))
        return mk(V.ALG.fabs(x.p))
    return abs(x)


def mathfn(name):
    def f(x):
        if isinstance(x, Unknown): return x
        if V.hascomplex(num(x)):
            if name != 'exp': return Unknown('%s of a complex value' % name)
            re, im = [mk(v) for v in V.parts(x)]
            ia = mk(V.ALG.A(V.ALG.aid[('I',)]))
            r = V.binop('+', V.fn('cos', im), V.binop('*', ia, V.fn('sin', im)))
            return V.binop('*', V.fn('exp', re) if not (isnum(re) and V.ALG.const(num(re)) == 0) else 1, r)
        return V.fn(name, x)
    return f


def angle(x):
    if isinstance(x, Unknown): return x
    re, im = [mk(v) for v in V.parts(x)]
    return V.u('angle', re, im)


def fl(x):
    if isinstance(x, Unknown): return x
    return mk(V.ALG.floor(num(x)))


def ceil(x):
    if isinstance(x, Unknown): return x
    return mk(V.ALG.neg(V.ALG.floor(V.ALG.neg(num(x)))))


UFUNCS = {
    'add': (2, scal('+'), None), 'subtract': (2, scal('-'), None), 'multiply': (2, scal('*'), None), 'true_divide': (2, scal('/'), 'f'), 'divide': (2, scal('/'), 'f'),
    'floor_divide': (2, scal('//'), None), 'remainder': (2, scal('%'), None), 'mod': (2, scal('%'), None), 'power': (2, scal('**'), None),
    'negative': (1, lambda x: V.binop('-', 0, x), None), 'absolute': (1, absval, None), 'abs': (1, absval, None), 'fabs': (1, absval, None),
    'conjugate': (1, V.conj, None), 'conj': (1, V.conj, None),
    'bitwise_and': (2, scal('&'), None), 'bitwise_or': (2, scal('|'), None), 'bitwise_xor': (2, scal('^'), None),
    'logical_and': (2, logical('&'), '?'), 'logical_or': (2, logical('|'), '?'), 'logical_xor': (2, logical('^'), '?'),
    'logical_not': (1, lambda x: x if isinstance(x, Unknown) else mkb(V.ALG.dd.NOT(V.truth(x))), '?'), 'invert': (1, lambda x: P.invert(x), None),
    'equal': (2, lambda x, y: V.cmp('==', x, y), '?'), 'not_equal': (2, lambda x, y: V.cmp('!=', x, y), '?'),
    'less': (2, lambda x, y: V.cmp('<', x, y), '?'), 'less_equal': (2, lambda x, y: V.cmp('<=', x, y), '?'),
    'greater': (2, lambda x, y: V.cmp('>', x, y), '?'), 'greater_equal': (2, lambda x, y: V.cmp('>=', x, y), '?'),
    'minimum': (2, lambda x, y: extreme('min', [x, y]), None), 'maximum': (2, lambda x, y: extreme('max', [x, y]), None),
    'fmin': (2, lambda x, y: extreme('min', [x, y]), None), 'fmax': (2, lambda x, y: extreme('max', [x, y]), None),
    'sqrt': (1, mathfn('sqrt'), 'f'), 'sin': (1, mathfn('sin'), 'f'), 'cos': (1, mathfn('cos'), 'f'), 'exp': (1, mathfn('exp'), 'f'), 'log': (1, mathfn('log'), 'f'),
    'angle': (1, angle, 'f'), 'floor': (1, fl, 'f'), 'ceil': (1, ceil, 'f'), 'square': (1, lambda x: V.binop('*', x, x), None), 'sign': (1, lambda x: V.u('sign', x), None),
    'positive': (1, lambda x: x, None), 'hypot': (2, lambda x, y: mathfn('sqrt')(scal('+')(scal('*')(x, x), scal('*')(y, y))), 'f'), 'float_power': (2, scal('**'), 'f'),
    'reciprocal': (1, lambda x: V.binop('/', 1, x), None), 'rint': (1, lambda x: fl(V.binop('+', x, Fraction(1, 2))), 'f'),
    'trunc': (1, lambda x: x if isinstance(x, Unknown) else mk(V.ALG.trunc(num(x))), 'f'),
}
SYN = {'conj': 'conjugate', 'mod': 'remainder', 'divide': 'true_divide', 'abs': 'absolute'}


class UFunc(P.Stub):
    def __init__(self, name):
        self.name = SYN.get(name, name)
        self.n, self.f, self.dt = UFUNCS[name]
        self.a___name__ = self.name

    def akey(self): return ('c', 'ufunc ' + self.name)

    def __eq__(self, o): return isinstance(o, UFunc) and o.name == self.name

    def __hash__(self): return hash(self.name)

    def call(self, I, *args, **kw):
        out = kw.pop('out', None)
        where = kw.pop('where', None)
        dtype = kw.pop('dtype', None)
        if isinstance(out, tuple): out = out[0]
        if len(args) == self.n + 1: args, out = args[:self.n], args[self.n]
        if len(args) != self.n: raise Unsupported('arguments of %s' % self.name)
        args = [I.resolve(a) for a in args]
        out = I.resolve(out)
        if where is not None and where is not True:
            if not isinstance(out, P.Arr): return I.unknown('where of a ufunc')
            r = self.call(I, *args)
            if isinstance(r, Unknown): return r
            I.store(out, NP['where'](I, where, r, copyarr(I, out, out.data.copy(), dict(out.sym))))
            return out
        for a in args + [out]:
            if isinstance(a, P.Inst) and I.isfieldlike(a):
                return I.fieldop(self.name, list(args), {'out': (out,)} if out is not None else {})
        args = [I.asarr(a) if isinstance(a, (list, tuple, P.Inst, range, P.Flat)) else a for a in args]
        dt = self.dt
        if dt == 'f':
            dt = 'f8'
            for a in args:
                if isinstance(a, P.Arr) and a.dtype.kind in 'fc': dt = a.dtype
            if self.name == 'angle' and dt != 'f8': dt = {'c8': 'f4', 'f4': 'f4'}.get(np.dtype(dt).str[1:], 'f8')
        r = I.ufunc(self.f, *args, dtype=dt)
        if out is not None:
            if isinstance(out, P.Inst): out = I.asarr(out)
            I.store(out, r)
            return out
        return r

    def attr(self, I, name):
        r = self.method(I, name)
        if name not in ('reduce', 'at', 'accumulate', 'outer', 'reduceat'): return r

        def onfield(I, *a, **k):
            out = k.get('out')
            o = list(out) if isinstance(out, tuple) else [out]
            if any(I.isfieldlike(x) for x in list(a) + o):
                if out is not None: k['out'] = tuple(o)
                return I.fieldop(self.name, list(a), k, name)
            if isinstance(out, tuple): k['out'] = out[0]
            return I.call(r, list(a), k)
        return r if isinstance(r, Unknown) else Native(onfield, name)

    def method(self, I, name):
        if name == 'reduce':
            def red(I, a, axis=0, **k):
                a = I.asarr(a)
                return fold(I, a, self.f, 0, axis, 'reduce_' + self.name)
            return Native(red, name)
        if name == 'reduceat':
            def redat(I, a, ind, axis=0, out=None, dtype=None):
                a, ind = I.asarr(a), I.asarr(ind)
                if not a.sym and not ind.sym and ind.ndim == 1 and axis == 0 and isconcrete(ind) and a.fields is None:
                    k = [int(e) for e in ind.data]
                    n = a.data.shape[0]
                    if any(not 0 <= e < n for e in k): raise P.AbsRaise('IndexError', I.site())
                    f = V.pyfunc(self.f, 2, 1)
                    d = np.empty((len(k),) + a.data.shape[1:], dtype=object)
                    for j, b in enumerate(k):
                        e = n if j + 1 == len(k) else k[j + 1]
                        v = a.data[b]
                        for q in range(b + 1, e): v = f(v, a.data[q])
                        d[j] = v
                    r = I.new(d, a.dtype)
                    if out is not None:
                        I.store(out, r)
                        return out
                    return r
                x = ind.data.reshape(-1)[0]
                f = V.pyfunc(lambda e: V.u('reduceat', self.name, e, x), 1, 1)
                r = copyarr(I, a, f(a.data), dict(ind.sym))
                if out is not None:
                    I.store(out, r)
                    return out
                return r
            return Native(redat, name)
        if name == 'at':
            def at_(I, a, ind, v=None):
                i = ind if isinstance(ind, P.Arr) else I.asarr(ind) if isinstance(ind, (list, tuple)) else None
                if isinstance(a, P.Arr) and i is not None and v is not None and not a.sym and not i.sym and i.ndim == 1 and isconcrete(i):
                    v = I.asarr(v)
                    for q in range(i.data.shape[0]):
                        e = int(i.data[q])
                        w = arr_getitem(I, v, q) if v.ndim == a.ndim else v
                        I.setitem(a, e, I.ufunc(self.f, arr_getitem(I, a, e), w, dtype=a.dtype))
                    return
                a.data[...] = Unknown('ufunc.at')
            return Native(at_, name)
        if name == 'outer':
            def outer(I, a, b, **k):
                a, b = I.asarr(a), I.asarr(b)
                if a.sym or b.sym or k: return I.unknown('ufunc.outer')
                return self.call(I, view(a, a.data.reshape(a.data.shape + (1,) * b.ndim), {}), b)
            return Native(outer, name)
        if name == '__call__': return self
        if name == '__name__': return self.name
        return I.unknown('ufunc.' + name)


UFUNCS2 = {'divmod': (2, (scal('//'), scal('%'))),
           'modf': (1, (lambda x: UFUNCS['subtract'][1](x, UFUNCS['trunc'][1](x)), UFUNCS['trunc'][1]))}


class UFunc2(P.Stub):
    """numpy functions with two results"""
    def __init__(self, name):
        self.name = self.a___name__ = name
        self.n, self.fs = UFUNCS2[name]

    def akey(self): return ('c', 'ufunc ' + self.name)

    def __eq__(self, o): return isinstance(o, UFunc2) and o.name == self.name

    def __hash__(self): return hash(self.name)

    def call(self, I, *args, **kw):
        args = [I.resolve(a) for a in args]
        out = kw.pop('out', None)
        if kw: raise Unsupported('arguments of %s' % self.name)
        out = (None, None) if out is None else tuple(I.resolve(o) for o in I.iterate(out))
        if len(args) > self.n: args, out = args[:self.n], (tuple(args[self.n:]) + (None,))[:2]
        if any(I.isfieldlike(x) for x in list(args) + list(out)):
            return I.fieldop(self.name, args, {} if out == (None, None) else {'out': out})
        args = [I.asarr(a) if isinstance(a, (list, tuple, P.Inst, range, P.Flat)) else a for a in args]
        rs = [I.ufunc(f, *args) for f in self.fs]
        for k, o in enumerate(out):
            if o is not None:
                I.store(o, rs[k])
                rs[k] = o
        return tuple(rs)

    def attr(self, I, name):
        if name == '__call__': return self
        if name == '__name__': return self.name
        return I.unknown('ufunc.' + name)


class MGrid(P.Stub):
    def __init__(self, sparse): self.sparse = sparse

    def getitem(self, I, sl):
        if isinstance(sl, slice): sl = (sl,)
        axes = []
        for s in sl:
            st = 0 if s.start is None else s.start
            n = conc_int(I.binop('-', s.stop, st))
            if n is None: raise Unsupported('mgrid extent')
            axes.append((st, n))
        shape = tuple(n for st, n in axes)
        if self.sparse:
            out = []
            for d, (st, n) in enumerate(axes):
                a = np.empty([n if k == d else 1 for k in range(len(shape))], dtype=object)
                a.reshape(-1)[...] = [I.scalar('+', st, k) for k in range(n)]
                out.append(I.new(a, 'i8'))
            return I.register(out)
        out = np.empty((len(shape),) + shape, dtype=object)
        for j in np.ndindex(*shape):
            for d in range(len(shape)): out[(d,) + j] = I.scalar('+', axes[d][0], j[d])
        return I.new(out, 'i8')


class R_(P.Stub):
    def getitem(self, I, s):
        if isinstance(s, slice):
            n = conc_int(I.binop('-', s.stop, s.start or 0))
            if n is None: raise Unsupported('r_')
            return I.new(np.array([I.scalar('+', s.start or 0, k) for k in range(n)] + [None], dtype=object)[:-1], 'i8')
        if isinstance(s, tuple):
            return NP['concatenate'](I, [I.asarr(x) if not isnum(x) else I.asarr([x]) for x in s])
        return I.unknown('r_')


class S_(P.Stub):
    def getitem(self, I, s): return s


NP = {}


def npf(*names):
    def d(f):
        for n in names: NP[n] = f
        return f
    return d


def fromseq(I, x):
    x = I.resolve(x)
    return x


@npf('asarray', 'asanyarray', 'ascontiguousarray')
def np_asarray(I, x, dtype=None, order=None, **kw):
    x = I.resolve(x)
    if isinstance(x, Gate): return I.dist(x, lambda y: np_asarray(I, y, dtype))
    if isinstance(x, Unknown): return x
    if isinstance(x, P.Comp): return x
    if isinstance(x, P.Stub) and hasattr(x, 'asarray'): return x.asarray(I)
    a = I.asarr(x)
    if dtype is not None and not isinstance(dtype, Unknown):
        dt = P.todtype(dtype)
        if dt != a.dtype: return m_astype(I, a, dt)
    return a


@npf('array')
def np_array(I, x, dtype=None, copy=True, order=None, ndmin=0, **kw):
    x = I.resolve(x)
    if isinstance(x, Unknown): return x
    if isinstance(x, Gate): return I.dist(x, lambda y: np_array(I, y, dtype, copy))
    if isinstance(x, P.Comp): return x
    if isinstance(x, P.Stub) and hasattr(x, 'asarray'): return x.asarray(I)
    a = np_asarray(I, x, dtype)
    if copy and isinstance(x, (P.Arr, P.Inst)) and isinstance(a, P.Arr) and (a is x or isinstance(x, P.Inst)): return m_copy(I, a)
    return a


@npf('asfarray')
def np_asfarray(I, x, dtype=None):
    a = np_asarray(I, x)
    if isinstance(a, P.Arr) and a.dtype.kind not in 'fc': return m_astype(I, a, 'f8')
    return a


@npf('copy')
def np_copy(I, x): return np_array(I, x)


def filled(I, shape, fill, dtype):
    dims, sym = mkshape(I, I.resolve(shape))
    dt = P.todtype(dtype) if dtype is not None else np.dtype('f8')
    if dt.shape:
        dims = dims + dt.shape
        dt = dt.base
    if dt.names is not None:
        out = P.Arr(obj(dims, 0), dt, sym)
        out.fields = {}
        for n in dt.names:
            f = dt.fields[n][0]
            out.fields[n] = filled(I, list(shape) if isinstance(shape, (tuple, list)) else (shape,), fill, f)
        return out
    return I.new(obj(dims, fill), dt, sym)


UNINIT = [0]


def uninit(I):
    return V.var('uninit', local=True)


@npf('empty')
def np_empty(I, shape, dtype=None, order=None): return filled(I, shape, uninit(I), dtype)


@npf('zeros')
def np_zeros(I, shape, dtype=None, order=None): return filled(I, shape, boolfill(dtype, 0), dtype)


def boolfill(dtype, v):
    if dtype is not None and not isinstance(dtype, Unknown) and P.todtype(dtype).kind == 'b': return bool(v)
    return v


@npf('ones')
def np_ones(I, shape, dtype=None, order=None): return filled(I, shape, boolfill(dtype, 1), dtype)


@npf('full')
def np_full(I, shape, v, dtype=None, **k): return filled(I, shape, v, dtype)


def like(fill):
    def f(I, a, dtype=None, order=None, **kw):
        a = I.asarr(I.resolve(a))
        v = uninit(I) if fill is None else fill
        if a.fields is not None:
            out = P.Arr(a.data, a.dtype, dict(a.sym))
            out.fields = {k: f(I, x) for k, x in a.fields.items()}
            return out
        dt = P.todtype(dtype) if dtype is not None else a.dtype
        order_ = np.argsort([-s for s in a.data.strides], kind='stable')
        d = np.empty_like(a.data)
        if d.ndim: d[...] = P.castto(dt, v)
        else: d[()] = P.castto(dt, v)
        return I.new(d, dt, dict(a.sym))
    return f


NP['empty_like'] = like(None)
NP['zeros_like'] = like(0)
NP['ones_like'] = like(1)


@npf('arange')
def np_arange(I, *a, dtype=None, **k):
    start, step = 0, 1
    a = [x.data[()] if isinstance(x, P.Arr) and x.ndim == 0 else I.resolve(x) for x in a]
    if len(a) == 1: stop = a[0]
    elif len(a) == 2: start, stop = a
    else: start, stop, step = a[:3]
    if len(a) == 4 and dtype is None: dtype = a[3]
    dt = P.todtype(dtype) if dtype is not None else P.scalardtype([start, stop, step])
    span = I.binop('-', stop, start)
    n = conc_int(span) if step == 1 else None
    if n is None and step != 1 and conc_int(span) is not None and conc_int(step) is not None:
        n = -(-conc_int(span) // conc_int(step))
    if n is None:
        if isinstance(span, S) and step == 1:
            d = obj((1,), None)
            d[0] = I.scalar('+', start, V.var('index', local=True, isint=True, lo=Fraction(0)))
            return I.new(d, dt, {0: span})
        raise Unsupported('arange')
    d = np.empty(max(n, 0), dtype=object)
    for j in range(n): d[j] = I.scalar('+', start, I.scalar('*', j, step))
    return I.new(d, dt)


@npf('linspace')
def np_linspace(I, a, b, n=50, endpoint=True, **kw):
    k = conc_int(n)
    if k is None: return I.unknown('linspace')
    d = np.empty(k, dtype=object)
    m = (k - 1) if endpoint else k
    for j in range(k): d[j] = I.scalar('+', a, I.scalar('*', I.scalar('-', b, a), Fraction(j, m) if m else 0))
    return I.new(d, 'f8')


@npf('dtype')
def np_dtype(I, x, *a, **k):
    if isinstance(x, Unknown): return x
    if isinstance(x, P.Inst) or isinstance(x, P.Arr): raise P.AbsRaise('TypeError', I.site())
    if isinstance(x, tuple) and len(x) == 2:
        sh = tuple(conc_int(y) for y in (x[1] if isinstance(x[1], tuple) else (x[1],)))
        if any(y is None for y in sh): raise Unsupported('dtype shape')
        return np.dtype((P.todtype(x[0]), sh))
    if isinstance(x, list):
        out = []
        for y in x:
            y = list(y)
            t = y[1]
            if isinstance(t, tuple) and len(t) == 2 and isinstance(t[1], tuple):
                sh = tuple(conc_int(z) for z in t[1])
                t = (P.todtype(t[0]), sh)
            else: t = P.todtype(t)
            out.append((y[0], t) + tuple(y[2:]))
        return np.dtype(out)
    try:
        return P.todtype(x)
    except TypeError:
        raise P.AbsRaise('TypeError', I.site())


def viaarr(m):
    def f(I, a, *args, **kw):
        a = I.resolve(a)
        if isinstance(a, Unknown): return a
        if isinstance(a, Gate): return I.dist(a, lambda x: f(I, x, *args, **kw))
        if isinstance(a, P.Comp):
            if m == 'sum': return I.call(comp_attr(I, a, 'sum'), list(args), kw)
            return I.unknown('function of a masked array')
        a = I.asarr(a)
        return METHODS[m](I, a, *args, **kw)
    return f


for _n in ('sum', 'prod', 'all', 'any', 'max', 'min', 'argsort', 'cumsum', 'mean', 'take', 'reshape', 'ravel', 'argmax', 'argmin', 'squeeze', 'swapaxes', 'clip', 'repeat', 'dot'):
    NP[_n] = viaarr(_n)
NP['product'] = NP['prod']
NP['amax'] = NP['max']
NP['amin'] = NP['min']
NP['alltrue'] = NP['all']
NP['sometrue'] = NP['any']


@npf('transpose')
def np_transpose(I, a, axes=None): return transpose(I, I.asarr(a), (axes,) if axes is not None else ())


@npf('moveaxis')
def np_moveaxis(I, a, s, d):
    a = I.asarr(a)
    ax = [k for k in range(a.ndim) if k != s % a.ndim]
    ax.insert(d % a.ndim, s % a.ndim)
    return transpose(I, a, (ax,))


@npf('isscalar')
def np_isscalar(I, x):
    x = I.resolve(x)
    return isnum(x) or isinstance(x, str)


@npf('iscomplexobj')
def np_iscomplexobj(I, x):
    if isinstance(x, P.Arr): return x.dtype.kind == 'c'
    return False


@npf('shape')
def np_shape(I, x):
    x = I.resolve(x)
    if isnum(x): return ()
    if isinstance(x, Unknown): return x
    return I.asarr(x).shape


@npf('ndim')
def np_ndim(I, x): return 0 if isnum(x) else I.asarr(x).ndim


@npf('size')
def np_size(I, x): return arr_attr(I, I.asarr(x), 'size')


@npf('where')
def np_where(I, c, *ab):
    c = I.resolve(c)
    if isinstance(c, Unknown): return c
    if not ab: return np_nonzero(I, c)
    return I.ufunc(lambda m, x, y: m if isinstance(m, Unknown) else V.ite(V.truth(m), x, y), c, *ab, dtype=None if True else None) if not all(isnum(x) for x in ab) or not isnum(c) else V.ite(V.truth(c), *ab)


def np_nonzero(I, c):
    c = I.asarr(c)
    if isconcrete(c) and not c.sym:
        ii = np.nonzero(np.array([bool(x) for x in c.data.ravel()]).reshape(c.data.shape))
        return tuple(I.new(np.array([int(k) for k in x] + [None], dtype=object)[:-1], 'i8') for x in ii)
    if c.ndim == 1 and not c.sym:
        bits = [mkb(V.truth(x)) for x in c.data]
        n = 0
        for b in bits: n = V.binop('+', n, mk(num(b)))
        d = obj((1,), None)
        d[0] = V.u('local:nonzero', tuple(bits), isint=True, lo=Fraction(0), hi=Fraction(len(bits) - 1))
        r = I.new(d, 'i8', {0: n if isinstance(n, S) else V.u('count', tuple(bits), isint=True)})
        first = len(bits) - 1
        for k in range(len(bits) - 2, -1, -1): first = V.ite(V.truth(bits[k]), k, first)
        r.first = first
        return (r,)
    return I.unknown('nonzero')


NP['nonzero'] = np_nonzero


@npf('flatnonzero')
def np_flatnonzero(I, c):
    r = np_nonzero(I, m_ravel(I, I.asarr(c)))
    return r[0] if isinstance(r, tuple) else r


@npf('digitize', 'searchsorted_')
def np_digitize(I, x, bins, right=False):
    bins = I.asarr(bins)
    rt = I.decide(right)
    es = list(bins.data)

    def f(v):
        if isinstance(v, Unknown): return v
        r = 0
        for e in es:
            c = V.cmp('>' if rt is True else '>=', v, e)
            r = V.binop('+', r, mk(num(c)))
        return r
    if isinstance(right, (S, B)): return I.unknown('digitize')
    return I.ufunc(f, I.asarr(x), dtype='i8')


@npf('searchsorted')
def np_searchsorted(I, bins, x, side='left', sorter=None):
    if sorter is not None: return I.unknown('searchsorted')
    return np_digitize(I, x, bins, right=(side == 'left'))


@npf('ravel_multi_index')
def np_ravel_multi_index(I, mi, dims, mode='raise', order='C'):
    if isinstance(mi, P.Arr): parts = [arr_getitem(I, mi, k) for k in range(mi.data.shape[0])]
    else: parts = I.iterate(mi)
    dims = I.iterate(dims)
    if len(parts) != len(dims): raise P.AbsRaise('ValueError', I.site())
    modes = list(mode) if isinstance(mode, tuple) else [mode] * len(dims)
    r = 0
    rng = list(range(len(dims)))
    if order == 'F': rng = rng[::-1]
    for d in rng:
        x = parts[d]
        if modes[d] == 'clip':
            x = I.ufunc(lambda e, n: extreme('min', [extreme('max', [e, 0]), I.scalar('-', n, 1)]), x, dims[d])
        elif modes[d] == 'wrap':
            x = I.binop('%', x, dims[d])
        r = I.binop('+', I.binop('*', r, dims[d]), x)
    return r


@npf('unravel_index')
def np_unravel_index(I, i, shape, order='C'):
    dims = I.iterate(shape)
    out = []
    rem = i
    rng = list(range(len(dims)))
    if order == 'C': rng = rng[::-1]
    res = {}
    for j, d in enumerate(rng):
        if j == len(rng) - 1: res[d] = rem
        else:
            res[d] = I.binop('%', rem, dims[d])
            rem = I.binop('//', rem, dims[d])
    return tuple(res[d] for d in range(len(dims)))


@npf('bincount')
def np_bincount(I, x, weights=None, minlength=0):
    x = I.asarr(x)
    k, s = split_len(I, minlength)
    xe = x.data.reshape(-1)[0] if x.data.size else 0
    if not x.sym:
        if s is None and not any(isinstance(e, Unknown) for e in x.data):
            if isconcrete(x) and x.data.size: k = max(k, max(int(e) for e in x.data) + 1)
            out = obj((k,), 0)
            w = None if weights is None else I.asarr(weights)
            for j in range(x.data.size):
                for b in range(k):
                    g = V.cmp('==', x.data[j], b)
                    out[b] = V.binop('+', out[b], V.binop('*', mk(num(g)), 1 if w is None else w.data[j]))
            return I.new(out, 'i8' if w is None else 'f8')
        return I.unknown('bincount')
    we = 1
    if weights is not None:
        w = I.asarr(weights)
        if w.ndim != 1: raise P.AbsRaise('ValueError', I.site())
        we = w.data.reshape(-1)[0]
    if s is None:
        out = obj((k,), 0)
        for b in range(k):
            out[b] = V.u('local:sum', V.binop('*', mk(num(V.cmp('==', xe, b))), we), x.sym[0], isint=weights is None)
        return I.new(out, 'i8' if weights is None else 'f8')
    d = obj((1,), None)
    d[0] = V.u('bincount', xe, we, s, isint=weights is None, lo=Fraction(0) if weights is None else None)
    return I.new(d, 'i8' if weights is None else 'f8', {0: s})


@npf('ndindex')
def np_ndindex(I, *shape):
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)): shape = shape[0]
    dims = [conc_int(x) for x in shape]
    if any(x is None for x in dims): raise Unsupported('ndindex')
    return [tuple(int(k) for k in t) for t in np.ndindex(*dims)]


@npf('indices')
def np_indices(I, shape, dtype=int, sparse=False):
    dims = [conc_int(x) for x in I.iterate(shape)]
    if any(x is None for x in dims): raise Unsupported('indices')
    out = np.empty([len(dims)] + dims, dtype=object)
    for j in np.ndindex(*dims):
        for d in range(len(dims)): out[(d,) + j] = j[d]
    dt = P.todtype(dtype) if dtype is not None else np.dtype('f8')
    return I.new(out, dt)


@npf('broadcast_to')
def np_broadcast_to(I, x, shape, **k):
    a = I.asarr(x)
    dims, sym = mkshape(I, shape)
    try:
        d = np.broadcast_to(a.data, dims)
    except ValueError:
        raise P.AbsRaise('ValueError', I.site())
    s2 = dict(sym)
    return copyarr(I, a, d, s2)


@npf('concatenate', 'hstack')
def np_concatenate(I, seq, axis=0, **k):
    xs = [I.asarr(x) for x in I.iterate(seq)]
    if any(x.sym for x in xs): return I.unknown('concatenate')
    return I.new(np.concatenate([x.data for x in xs], axis=axis), np.result_type(*[x.dtype for x in xs]))


@npf('tile')
def np_tile(I, a, reps):
    a = I.asarr(a)
    r = [reps] if isnum(reps) else list(I.iterate(reps))
    r = [conc_int(x) for x in r]
    if a.sym or a.fields is not None or None in r: return I.unknown('tile')
    return I.new(np.tile(a.data, r), a.dtype)


@npf('flip')
def np_flip(I, a, axis=None):
    a = I.asarr(a)
    if a.sym or a.fields is not None: return I.unknown('flip')
    return view(a, np.flip(a.data, axis), {})


@npf('roll')
def np_roll(I, a, shift, axis=None):
    a = I.asarr(a)
    n = conc_int(shift) if isnum(shift) else None
    if a.sym or n is None or a.fields is not None: return I.unknown('roll')
    return I.new(np.roll(a.data, n, axis), a.dtype)


@npf('outer')
def np_outer(I, a, b):
    a, b = I.asarr(a), I.asarr(b)
    if a.sym or b.sym: return I.unknown('outer')
    return UFunc('multiply').call(I, view(a, a.data.reshape(-1, 1), {}), view(b, b.data.reshape(1, -1), {}))


@npf('meshgrid')
def np_meshgrid(I, *xs, indexing='xy', sparse=False, copy=True):
    xs = [I.asarr(x) for x in xs]
    if any(x.sym for x in xs) or indexing != 'ij': return I.unknown('meshgrid')
    n = len(xs)
    v = [x.data.reshape(tuple(-1 if k == d else 1 for k in range(n))) for d, x in enumerate(xs)]
    shape = np.broadcast(*v).shape if n else ()
    return I.register([I.new(w.copy() if sparse else np.broadcast_to(w, shape).copy(), x.dtype) for w, x in zip(v, xs)])


@npf('vdot')
def np_vdot(I, a, b):
    a, b = I.asarr(I.resolve(a)), I.asarr(I.resolve(b))
    if a.ndim != b.ndim or dict(a.sym) != dict(b.sym): return I.unknown('vdot')
    return m_sum(I, I.asarr(UFunc('multiply').call(I, UFunc('conjugate').call(I, a), b)))


@npf('inner')
def np_inner(I, a, b):
    a, b = I.asarr(I.resolve(a)), I.asarr(I.resolve(b))
    if a.ndim != 1 or b.ndim != 1 or dict(a.sym) != dict(b.sym): return I.unknown('inner')
    return m_sum(I, I.asarr(UFunc('multiply').call(I, a, b)))


@npf('einsum')
def np_einsum(I, spec, *xs, **k):
    xs = [I.asarr(I.resolve(x)) for x in xs]
    if not isinstance(spec, str) or '...' in spec or '->' not in spec or k: return I.unknown('einsum')
    ins, out = spec.replace(' ', '').split('->')
    ins = ins.split(',')
    if len(ins) != len(xs) or any(len(set(t)) != len(t) or len(t) != x.ndim for t, x in zip(ins, xs)): return I.unknown('einsum')
    if out == '' and all(t == ins[0] for t in ins) and all(dict(x.sym) == dict(xs[0].sym) for x in xs):
        r = xs[0]
        for x in xs[1:]: r = I.asarr(UFunc('multiply').call(I, r, x))
        return m_sum(I, r)
    if any(x.sym for x in xs): return I.unknown('einsum')
    letters = out + ''.join(sorted(set(''.join(ins)) - set(out)))
    r = None
    for t, x in zip(ins, xs):
        o = [t.index(c) for c in letters if c in t]
        d = x.data.transpose(o).reshape([x.data.shape[t.index(c)] if c in t else 1 for c in letters])
        v = view(x, d, {})
        r = v if r is None else I.asarr(UFunc('multiply').call(I, r, v))
    for _ in range(len(letters) - len(out)): r = I.asarr(m_sum(I, r, axis=r.ndim - 1))
    return r


@npf('full_like')
def np_full_like(I, a, v, dtype=None, **k):
    r = NP['empty_like'](I, a, dtype=dtype)
    I.store(r, v)
    return r


@npf('identity', 'eye')
def np_eye(I, n, dtype=None, **k):
    n = conc_int(n)
    if n is None or k: return I.unknown('eye')
    return I.new(np.array([[int(i == j) for j in range(n)] for i in range(n)], dtype=object).reshape(n, n), dtype or 'f8')


@npf('array_split', 'split')
def np_split(I, a, n, axis=0):
    a = I.asarr(a)
    k = conc_int(n) if isnum(n) else [conc_int(x) for x in I.iterate(n)]
    if a.sym or a.fields is not None or k is None or (isinstance(k, list) and None in k): return I.unknown('split')
    return I.register([view(a, x, {}) for x in np.array_split(a.data, k, axis)])


@npf('iscomplex')
def np_iscomplex(I, x): return UFunc('not_equal').call(I, NP['imag'](I, x), 0)


@npf('average')
def np_average(I, a, axis=None, weights=None):
    if weights is not None: return I.unknown('average')
    return NP['mean'](I, a, axis=axis)


@npf('stack')
def np_stack(I, seq, axis=0):
    xs = [I.asarr(x) for x in I.iterate(seq)]
    sym = {d + (1 if d >= axis % (x.ndim + 1) else 0): n for x in xs for d, n in x.sym.items()}
    return I.new(np.stack([x.data for x in xs], axis=axis), np.result_type(*[x.dtype for x in xs]), sym)


@npf('column_stack')
def np_column_stack(I, seq): return np_stack(I, seq, 1)


@npf('unique')
def np_unique(I, x, **k):
    a = I.asarr(x)
    if isconcrete(a): return I.new(np.array(sorted(set(a.data.ravel())) + [None], dtype=object)[:-1], a.dtype)
    return I.unknown('unique')


@npf('append')
def np_append(I, a, b, axis=None): return np_concatenate(I, [a, b] if not isnum(b) else [a, I.asarr([b])])


@npf('diff')
def np_diff(I, a, n=1, axis=-1):
    a = I.asarr(a)
    if a.sym: return I.unknown('diff')
    x = arr_getitem(I, a, (Ellipsis, slice(1, None)))
    y = arr_getitem(I, a, (Ellipsis, slice(None, -1)))
    return I.binop('-', x, y)


@npf('array_equal')
def np_array_equal(I, a, b):
    a, b = I.asarr(a), I.asarr(b)
    if a.data.shape != b.data.shape: return False
    return m_all(I, I.cmpop('==', a, b))


@npf('may_share_memory', 'shares_memory')
def np_share(I, a, b):
    if isinstance(a, P.Arr) and isinstance(b, P.Arr): return bool(np.shares_memory(a.data, b.data))
    return False


@npf('issubdtype')
def np_issubdtype(I, a, b):
    k = P.todtype(a).kind
    n = b.name if isinstance(b, (NpType, P.Native)) else str(b)
    return {'integer': k in 'iu', 'floating': k == 'f', 'complexfloating': k == 'c', 'number': k in 'iufc'}.get(n, False)


@npf('real')
def np_real(I, x): return I.getattr(I.asarr(x) if not isnum(x) else x, 'real')


@npf('imag')
def np_imag(I, x): return I.getattr(I.asarr(x) if not isnum(x) else x, 'imag')


@npf('result_type', 'promote_types', 'find_common_type')
def np_result_type(I, *a): return np.result_type(*[P.todtype(x) if not isinstance(x, P.Arr) else x.dtype for x in a])


@npf('copyto')
def np_copyto(I, a, b, **k): I.store(a, b)


@npf('expand_dims')
def np_expand_dims(I, a, axis):
    a = I.asarr(a)
    ax = axis % (a.ndim + 1)
    return view(a, np.expand_dims(a.data, ax), {d + (1 if d >= ax else 0): n for d, n in a.sym.items()})


@npf('atleast_1d')
def np_atleast(I, a):
    a = I.asarr(a)
    return a if a.ndim else view(a, a.data.reshape(1), {})


@npf('count_nonzero')
def np_count(I, a): return m_sum(I, P.Arr(tobool(I.asarr(a)), '?', I.asarr(a).sym))


@npf('vstack')
def np_vstack(I, seq): return I.unknown('vstack')


# ------------------------------------------------------------------ builtins

BUILTINS = {}


def bi(*names):
    def d(f):
        for n in names: BUILTINS[n] = Native(f, n)
        return f
    return d


class TypeNative(object):
    pass


@bi('len')
def b_len(I, x):
    x = I.resolve(x)
    if isinstance(x, Gate): return I.dist(x, lambda y: b_len(I, y))
    if isinstance(x, P.Arr):
        if x.ndim == 0: raise P.AbsRaise('TypeError', I.site())
        return x.shape[0]
    if isinstance(x, P.Flat): return arr_attr(I, x.arr, 'size')
    if isinstance(x, P.Inst):
        if x.seq is not None: return len(x.seq)
        m = x.cls.lookup('__len__')
        if m is not None: return I.call(P.Bound(m, x), [], {})
    if isinstance(x, Unknown): return x
    if isinstance(x, P.Stub): return I.call(x.attr(I, '__len__'), [], {})
    if x is None or isnum(x): raise P.AbsRaise('TypeError', I.site())
    return len(x)


@bi('range', 'xrange')
def b_range(I, *a):
    a = [I.resolve(x) for x in a]
    c = [conc_int(x) for x in a]
    if all(x is not None for x in c): return range(*c)
    if any(isinstance(x, Unknown) for x in a): raise Unsupported('range of unknown extent')
    if len(a) == 1: return P.Range(0, a[0], 1)
    return P.Range(a[0], a[1], a[2] if len(a) > 2 else 1)


@bi('enumerate')
def b_enumerate(I, x, start=0): return [(start + k, y) for k, y in enumerate(I.iterate(x))]


@bi('zip')
def b_zip(I, *a): return list(zip(*[I.iterate(x) for x in a]))


@bi('map')
def b_map(I, f, *a): return [I.call(f, list(x), {}) for x in zip(*[I.iterate(y) for y in a])]


@bi('filter')
def b_filter(I, f, a):
    out = []
    for x in I.iterate(a):
        c = I.decide(I.call(f, [x], {}) if f is not None else x)
        if c is True: out.append(x)
        elif c is not False: raise Unsupported('filter')
    return out


@bi('list')
def b_list(I, x=()): return I.register(list(I.iterate(x)))


@bi('tuple')
def b_tuple(I, x=()): return tuple(I.iterate(x))


@bi('set', 'frozenset')
def b_set(I, x=()): return set(I.hashable(y) for y in I.iterate(x))


@bi('dict')
def b_dict(I, x=None, **kw):
    d = I.register({})
    if isinstance(x, dict): d.update(x)
    elif x is not None:
        for k, v in I.iterate(x): d[I.hashable(k)] = v
    d.update(kw)
    return d


@bi('iter', 'reversed_')
def b_iter(I, x): return I.iterate(x)


@bi('next')
def b_next(I, x, *d): return I.iterate(x)[0]


@bi('reversed')
def b_reversed(I, x): return I.iterate(x)[::-1]


@bi('sorted')
def b_sorted(I, x, key=None, reverse=False):
    xs = I.iterate(x)
    if splitting():
        ks = [Ord(I, y if key is None else I.call(key, [y], {})) for y in xs]
        return I.register([xs[k] for k in sorted(range(len(xs)), key=lambda k: ks[k], reverse=bool(reverse))])
    try:
        ks = xs if key is None else [I.call(key, [y], {}) for y in xs]
        o = sorted(range(len(xs)), key=lambda k: ks[k], reverse=bool(reverse))
        return I.register([xs[k] for k in o])
    except (Unsupported, TypeError):
        if getattr(I, 'exactv', False): raise Unsupported('order of abstract values')
        return I.register(xs)


@bi('sum')
def b_sum(I, x, start=0):
    r = start
    for y in I.iterate(x): r = I.binop('+', r, y) if not (isnum(r) and not isinstance(r, (S, B)) and r == 0 and not isnum(y)) else y
    return r


@bi('abs')
def b_abs(I, x):
    x = I.resolve(x)
    if isnum(x): return absval(x)
    if isinstance(x, P.Inst) and I.isfieldlike(x): return I.fieldop('absolute', [x], {})
    return I.ufunc(absval, x)


def minmax(name):
    def f(I, *a, **kw):
        xs = list(a) if len(a) > 1 else I.iterate(a[0])
        if not xs:
            if 'default' in kw: return kw['default']
            raise P.AbsRaise('ValueError', I.site())
        if splitting() and not any(isinstance(I.resolve(x), P.Arr) and I.resolve(x).data.size != 1 for x in xs):
            ks = [Ord(I, I.call(kw['key'], [x], {}) if kw.get('key') is not None else x) for x in xs]
            return xs[(max if name == 'max' else min)(range(len(xs)), key=lambda k: ks[k])]
        if 'key' in kw: return I.unknown(name)
        xs = [x.data.reshape(-1)[0] if isinstance(x, P.Arr) and x.data.size == 1 and not x.sym else I.resolve(x) for x in xs]
        if any(isinstance(x, P.Arr) for x in xs): return I.unknown(name)
        return extreme(name, xs)
    return f


BUILTINS['max'] = Native(minmax('max'), 'max')
BUILTINS['min'] = Native(minmax('min'), 'min')


@bi('any')
def b_any(I, x):
    x = I.resolve(x)
    if isinstance(x, Unknown): return x
    if isinstance(x, P.Arr): return m_any(I, x)
    r = False
    for y in I.iterate(x):
        y = I.resolve(y)
        if isinstance(y, Unknown): return y
        t = tru(I, y)
        r = mkb(V.ALG.dd.OR(V.truth(r), t))
    return r


@bi('all')
def b_all(I, x):
    x = I.resolve(x)
    if isinstance(x, Unknown): return x
    if isinstance(x, P.Arr): return m_all(I, x)
    r = True
    for y in I.iterate(x):
        y = I.resolve(y)
        if isinstance(y, Unknown): return y
        r = mkb(V.ALG.dd.AND(V.truth(r), tru(I, y)))
    return r


def tru(I, y):
    if isinstance(y, (S, B)): return V.truth(y)
    c = I.decide(y)
    return V.ALG.dd.T if c is True else V.ALG.dd.F if c is False else c


class TypeOf(object):
    pass


def typeof(I, x):
    x = I.resolve(x)
    if isinstance(x, P.Inst): return x.cls
    if isinstance(x, P.Arr): return x.cls if x.cls is not None else NpType('ndarray')
    if isinstance(x, P.Flat): return NpType('flatiter')
    if isinstance(x, (P.Class,)): return BUILTINS['type']
    for t in (bool, int, float, str, tuple, list, dict, set, complex, slice):
        if type(x) is t: return BUILTINS.get(t.__name__, t)
    if isinstance(x, (S, Fraction)): return BUILTINS['int'] if isint(x) else BUILTINS['float']
    if isinstance(x, B): return BUILTINS['bool']
    if x is None: return NoneType
    if x is Ellipsis: return Native(None, 'ellipsis')
    return Unknown('type')


NoneType = Native(None, 'NoneType')


@bi('type')
def b_type(I, x, *a):
    if a: raise Unsupported('type')
    x = I.resolve(x)
    if isinstance(x, Gate): return I.dist(x, lambda y: typeof(I, y))
    return typeof(I, x)


@bi('isinstance')
def b_isinstance(I, x, t):
    x = I.resolve(x)
    if isinstance(x, Gate): return I.dist(x, lambda y: b_isinstance(I, y, t))
    if isinstance(x, Unknown) or isinstance(t, Unknown): return I.freshbool('isinstance')
    if isinstance(t, tuple):
        r = False
        for y in t:
            v = b_isinstance(I, x, y)
            if v is True: return True
            if v is not False: r = v
        return r
    if isinstance(t, P.Class):
        if isinstance(x, P.Inst): return t in x.cls.mro()
        if isinstance(x, P.Arr) and x.cls is not None: return t in x.cls.mro()
        return False
    if isinstance(t, NpType):
        if t.name == 'ndarray': return isinstance(x, P.Arr)
        if t.name == 'flatiter': return isinstance(x, P.Flat)
        if t.name == 'ufunc': return isinstance(x, UFunc)
        if t.name in ('generic', 'number'): return isnum(x) and isinstance(x, (S, B, Fraction))
        if t.name == 'integer': return isint(x)
        if t.name == 'floating': return isnum(x) and not isint(x)
        return False
    if isinstance(t, P.Native):
        n = t.name
        if n == 'type': return isinstance(x, (P.Class, NpType)) or (isinstance(x, P.Native) and x.name in ('int', 'float', 'str', 'list', 'tuple', 'dict', 'bool', 'set', 'type'))
        if n == 'int': return isint(x) or isinstance(x, bool)
        if n == 'float': return isnum(x) and not isint(x) and not isinstance(x, (bool, B))
        if n == 'bool': return isinstance(x, (bool, B))
        if n == 'str': return isinstance(x, str)
        if n == 'list': return isinstance(x, list) or (isinstance(x, P.Inst) and x.seq is not None)
        if n == 'tuple': return isinstance(x, tuple)
        if n == 'dict': return isinstance(x, dict)
        if n == 'set': return isinstance(x, set)
        if n == 'complex': return isinstance(x, complex)
        if n == 'slice': return isinstance(x, slice)
        if n == 'object': return True
        if n in ('Number', 'Real', 'Complex'): return isnum(x)
        if n == 'Integral': return isint(x)
        if n == 'NoneType': return x is None
        if n == 'dtype': return isinstance(x, np.dtype)
        if hasattr(t, 'dtype'): return isnum(x) and isinstance(x, (S, Fraction)) and P.scalardtype([x]).kind == t.dtype.kind
    if isinstance(t, P.Stub):
        if hasattr(t, 'isinstance'): return t.isinstance(I, x)
        return isinstance(x, P.Stub) and getattr(x, 'a___class__', None) is t
    if t is slice: return isinstance(x, slice)
    return I.freshbool('isinstance')


@bi('issubclass')
def b_issubclass(I, c, t):
    c = I.resolve(c)
    if isinstance(t, tuple): return any(b_issubclass(I, c, y) is True for y in t)
    if isinstance(c, P.Class) and isinstance(t, P.Class): return t in c.mro()
    if isinstance(c, Unknown): return I.freshbool('issubclass')
    if not isinstance(c, P.Class): 
        if isnum(c) or isinstance(c, str) or c is None: raise P.AbsRaise('TypeError', I.site())
    return False


@bi('hasattr')
def b_hasattr(I, x, n):
    x, n = I.resolve(x), I.resolve(n)
    if not isinstance(n, str): return I.freshbool('hasattr')
    if isinstance(x, P.Inst):
        if n in x.attrs or x.cls.lookup(n) is not None: return True
        if n in ('__iter__', '__len__') and x.seq is not None: return True
        return False
    if n == '__iter__': return isinstance(x, (list, tuple, dict, set, range, P.Arr, P.Range, str))
    if n == '__len__': return isinstance(x, (list, tuple, dict, set, range, P.Arr, str))
    if isnum(x) or x is None: return n in ('real', 'imag') and x is not None
    if isinstance(x, P.Arr): return n in x.attrs or n in METHODS or n in ('shape', 'dtype', 'ndim', 'flat', 'strides', 'flags', 'real', 'imag', 'size', '__array__')
    if isinstance(x, (list, tuple, str)): return False
    if n == '__call__': return isinstance(x, (P.Fn, P.Native, P.Bound, P.Class))
    if isinstance(x, P.Stub):
        r = x.attr(I, n)
        return not isinstance(r, Unknown)
    return I.freshbool('hasattr')


@bi('getattr')
def b_getattr(I, x, n, *d):
    if d:
        h = b_hasattr(I, x, n)
        c = I.decide(h)
        if c is False: return d[0]
    if n == '__call__': return x
    return I.getattr(x, n)


@bi('setattr')
def b_setattr(I, x, n, v): I.setattr(x, n, v)


@bi('callable')
def b_callable(I, x): return isinstance(I.resolve(x), (P.Fn, P.Native, P.Bound, P.Class)) or (isinstance(x, P.Stub) and hasattr(x, 'call'))


@bi('int', 'long')
def b_int(I, x=0, *a):
    x = I.resolve(x)
    if isinstance(x, Gate): return I.dist(x, lambda y: b_int(I, y))
    if isinstance(x, Unknown): return x
    if isinstance(x, P.Arr) and x.data.size == 1: x = x.data.reshape(-1)[0]
    if isnum(x): return P.castto(np.dtype('i8'), x)
    if isinstance(x, str):
        try: return int(x)
        except ValueError: raise P.AbsRaise('ValueError', I.site())
    return I.unknown('int')


@bi('float')
def b_float(I, x=0):
    x = I.resolve(x)
    if isinstance(x, P.Arr) and x.data.size == 1: x = x.data.reshape(-1)[0]
    if isinstance(x, str):
        try: return float(x)
        except ValueError: raise P.AbsRaise('ValueError', I.site())
    return x


@bi('complex')
def b_complex(I, a=0, b=0): return I.binop('+', a, I.binop('*', b, 1j))


@bi('bool')
def b_bool(I, x=False):
    c = I.decide(x)
    return c if isinstance(c, bool) else mkb(c)


@bi('str', 'repr', 'format', 'ascii')
def b_str(I, x='', *a): return x if isinstance(x, str) else '<str>'


@bi('print')
def b_print(I, *a, **k): return None


@bi('id')
def b_id(I, x): return V.u('id', str(id(x)))


@bi('hash')
def b_hash(I, x): return V.u('hash', x)


@bi('slice')
def b_slice(I, *a): return slice(*a)


@bi('divmod')
def b_divmod(I, a, b): return (I.binop('//', a, b), I.binop('%', a, b))


@bi('pow')
def b_pow(I, a, b): return I.binop('**', a, b)


@bi('round')
def b_round(I, x, n=0): return fl(I.binop('+', x, Fraction(1, 2)))


@bi('vars')
def b_vars(I, x): return x.attrs


@bi('globals')
def b_globals(I): return I.frames[-1].mod.env


@bi('locals')
def b_locals(I): return I.frames[-1].env


@bi('super')
def b_super(I, *a):
    fr = I.frames[-1]
    cls = fr.fn.cls
    o = a[1] if len(a) > 1 else fr.env.get('self', list(fr.env.values())[0] if fr.env else None)
    if a: cls = a[0]
    return Super(cls, o)


class Super(P.Stub):
    def __init__(self, cls, o):
        self.cls, self.o = cls, o

    def attr(self, I, name):
        mro = self.o.cls.mro()
        k = mro.index(self.cls) + 1
        for c in mro[k:]:
            if name in c.attrs: return I.bind(c.attrs[name], self.o, self.o.cls)
        if name == '__init__': return Native(lambda I, *a, **k: None, name)
        return I.unknown('super().' + name)


class ObjectT(object):
    pass


BUILTINS['object'] = Native(lambda I: P.Inst(P.Class('object', [], {})), 'object')
BUILTINS['None'] = None
BUILTINS['True'] = True
BUILTINS['False'] = False
BUILTINS['Ellipsis'] = Ellipsis
BUILTINS['NotImplemented'] = Native(None, 'NotImplemented')
BUILTINS['staticmethod'] = staticmethod
BUILTINS['classmethod'] = classmethod
BUILTINS['property'] = property
BUILTINS['__import__'] = Native(lambda I, *a: I.unknown('import'), '__import__')
_listn = BUILTINS['list']
