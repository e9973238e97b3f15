"""Abstract interpretation of the Python (and, converted, Cython) sources.

The syntax tree of the current source is evaluated over abstract values: a
single forward pass in which undecided branches are analysed separately and
joined with gated values (no path is enumerated, nothing is solved), calls are
analysed in context, and external libraries are replaced by transfer functions.
Calls of interest are recorded as events with the guard under which they happen.
"""
import ast
import builtins
import os
from fractions import Fraction

import numpy as np

import pyval as V
from pyval import S, B, Gate, Unknown, UNDEFINED, Unsupported, isnum, num, mk, mkb


class Return(Exception):
    def __init__(self, value): self.value = value


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Dead(Exception):
    """nothing is left to execute under the current guard"""


class AbsRaise(Exception):
    def __init__(self, name, site, value=None):
        Exception.__init__(self, '%s at %s' % (name, site))
        self.name, self.site, self.value = name, site, value


# ------------------------------------------------------------------ values

class Arr(object):
    """abstract array; sym: axis -> length of an axis represented by a generic element"""
    def __init__(self, data, dtype='f8', sym=None, root=None, attrs=None, cls=None):
        self.data = data
        self.dtype = np.dtype(dtype)
        self.sym = sym or {}
        self.root = root if root is not None else self
        self.attrs = attrs if attrs is not None else {}
        self.cls = cls
        self.flags = {'writeable': True}
        self.ext = None
        self.fields = None          # structured arrays: name -> Arr

    @property
    def shape(self):
        return tuple(self.sym.get(d, n) for d, n in enumerate(self.data.shape))

    @property
    def ndim(self):
        return self.data.ndim

    def akey(self):
        if self.fields is not None:
            return ('x', 'struct') + tuple(f.akey() for f in self.fields.values())
        return ('x', 'arr', V.akey(tuple(self.shape))) + tuple(V.akey(x) for x in self.data.ravel())

    def __repr__(self):
        return 'Arr(%s, %s)' % (self.shape, self.dtype)


class Comp(object):
    """a[mask] for an abstract mask: the full array and the mask"""
    def __init__(self, mask, full):
        self.mask, self.full = mask, full


class Flat(object):
    def __init__(self, arr):
        self.arr = arr

    def akey(self):
        return ('x', 'flat', self.arr.akey())


class Fn(object):
    def __init__(self, node, env, mod, name, defaults=(), kwdefaults=None, cls=None):
        self.node, self.env, self.mod, self.name = node, env, mod, name
        self.defaults, self.kwdefaults, self.cls = defaults, kwdefaults or {}, cls


class Native(object):
    def __init__(self, fn, name=''):
        self.fn, self.name = fn, name

    def akey(self):
        return ('c', 'native ' + self.name)


class Bound(object):
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class Static(object):
    def __init__(self, fn): self.fn = fn


class ClsM(object):
    def __init__(self, fn): self.fn = fn


class Prop(object):
    def __init__(self, fn): self.fn = fn


class Class(object):
    def __init__(self, name, bases, attrs, mod=None):
        self.name, self.bases, self.attrs, self.mod = name, bases, attrs, mod

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Class):
                for c in b.mro():
                    if c not in out: out.append(c)
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.attrs: return c.attrs[name]
        return None

    def natives(self):
        return [b for c in self.mro() for b in c.bases if not isinstance(b, Class)]

    def akey(self):
        return ('c', 'class ' + self.name)

    def __repr__(self):
        return 'Class(%s)' % self.name


class Inst(object):
    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}
        self.seq = None

    def __repr__(self):
        return 'Inst(%s)' % self.cls.name


class Stub(object):
    """object of an external library"""
    def attr(self, I, name):
        m = getattr(self, 'm_' + name, None)
        if m is not None: return Native(lambda I, *a, **k: m(I, *a, **k), name)
        f = getattr(self, 'a_' + name, UNDEFINED)
        if f is not UNDEFINED: return f
        return Unknown('%s.%s' % (type(self).__name__, name))

    def setattr(self, I, name, v):
        setattr(self, 'a_' + name, v)


class Struct(Stub):
    """a C struct (or an array of one)"""
    def __init__(self, I, name):
        self.name = name
        self.attrs = {}
        I.register(self.attrs)

    def attr(self, I, name):
        if name not in self.attrs:
            self.attrs[name] = I.register({})
        v = self.attrs[name]
        return v


class Event(object):
    def __init__(self, kind, guard, args, site, stack, seq):
        self.kind, self.guard, self.args, self.site, self.stack, self.seq = kind, guard, args, site, stack, seq

    def __repr__(self):
        return 'Event(%s at %s)' % (self.kind, self.site)


class Module(object):
    def __init__(self, name, file):
        self.name, self.file = name, file
        self.env = {}


class Range(object):
    """range with abstract bounds"""
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


class Frame(object):
    def __init__(self, fn, env, mod):
        self.fn, self.env, self.mod = fn, env, mod
        self.guard0 = None
        self.rets = []
        self.node = None


BUILTIN_EXC = ['Exception', 'ValueError', 'TypeError', 'IndexError', 'KeyError', 'NotImplementedError', 'AssertionError',
               'RuntimeError', 'AttributeError', 'ImportError', 'StopIteration', 'ZeroDivisionError', 'ArithmeticError',
               'DeprecationWarning', 'OSError', 'MemoryError', 'NotImplemented', 'StopIteration', 'UserWarning', 'FloatingPointError']


class Interp(object):
    def __init__(self, src, externals=None):
        self.src = src              # Sources
        self.alg = V.ALG
        self.guard = V.ALG.dd.T
        self.heap = {}
        self.events = []
        self.frames = []
        self.mods = {}
        self.raises = []            # (guard, exception name, site)
        self.trys = []
        self.loops = []
        self.ext = dict(externals or {})      # module name -> Stub / dict
        self.unknowns = []
        self.steps = 0
        self.maxsteps = 400000
        self.line = None
        self.ranges = []            # abstract range loops around the current statement
        self.chunks = []            # abstract chunk loops: (var key, step)
        self.asserts = []
        self.funcs = set()
        self.hooks = {}             # qualified function name -> replacement
        self.opaque_n = 0

    # ---- heap
    def register(self, obj):
        self.heap[id(obj)] = obj
        return obj

    def new(self, data, dtype='f8', sym=None):
        data = np.asarray(data, dtype=object)
        a = Arr(data, dtype, sym)
        self.register(data)
        return a

    def snapshot(self):
        heap = {}
        for k, o in self.heap.items():
            if isinstance(o, np.ndarray): heap[k] = o.copy()
            elif isinstance(o, dict): heap[k] = dict(o)
            elif isinstance(o, list): heap[k] = list(o)
        return heap, [dict(f.env) for f in self.frames], len(self.frames)

    def restore(self, snap):
        heap, envs, n = snap
        for k, o in self.heap.items():
            if k not in heap: continue
            c = heap[k]
            if isinstance(o, np.ndarray): o[...] = c
            elif isinstance(o, dict):
                o.clear()
                o.update(c)
            else: o[:] = c
        for f, e in zip(self.frames, envs):
            f.env.clear()
            f.env.update(e)

    def merge(self, snap, g):
        """current state := snapshot where g, current state elsewhere"""
        heap, envs, n = snap
        for k, o in self.heap.items():
            if k not in heap: continue
            c = heap[k]
            if isinstance(o, np.ndarray):
                if o.ndim == 0:
                    if c[()] is not o[()]: o[()] = V.ite(g, c[()], o[()])
                    continue
                fo, fc = o.reshape(-1), c.reshape(-1)
                if o.flags.c_contiguous:
                    for i in range(fo.size):
                        if fo[i] is not fc[i]: fo[i] = self.mval(g, fc[i], fo[i])
                else:
                    for i in np.ndindex(*o.shape):
                        if o[i] is not c[i]: o[i] = self.mval(g, c[i], o[i])
            elif isinstance(o, dict):
                self.mergedict(g, c, o)
            else:
                if len(c) == len(o):
                    for i in range(len(o)):
                        if c[i] is not o[i]: o[i] = self.mval(g, c[i], o[i])
                else:
                    o[:] = [Unknown('list of undecided length')] * max(len(o), len(c))
        for f, e in zip(self.frames, envs):
            self.mergedict(g, e, f.env)

    def mergedict(self, g, c, o):
        for key in list(set(c) | set(o)):
            a, b = c.get(key, UNDEFINED), o.get(key, UNDEFINED)
            if a is b: continue
            o[key] = self.mval(g, a, b)

    def mval(self, g, a, b):
        if a is b: return a
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.mval(g, x, y) for x, y in zip(a, b))
        if isinstance(a, Arr) and isinstance(b, Arr) and a.data is b.data: return a
        if type(a) is type(b) and isinstance(a, (str, int, float, bool, type(None), np.dtype, slice)) and a == b: return a
        if isinstance(a, Struct) or isinstance(b, Struct):
            pass
        if isinstance(a, Bound) and isinstance(b, Bound) and a.fn is b.fn and a.self_ is b.self_: return a
        return V.ite(g, a, b)

    # ---- running
    def event(self, kind, **args):
        e = Event(kind, self.guard, args, self.site(), self.stack(), len(self.events))
        e.loops = tuple(self.ranges)
        self.events.append(e)
        return e

    def site(self):
        for f in reversed(self.frames):
            if f.node is not None:
                return '%s:%d (%s)' % (os.path.basename(f.mod.file), f.node.lineno, f.fn.name if f.fn is not None else 'module')
        return '?'

    def stack(self):
        return [f.fn.name for f in self.frames if f.fn is not None]

    def unknown(self, why):
        u = Unknown('%s at %s' % (why, self.site()))
        self.unknowns.append(u.why)
        return u

    def freshbool(self, why):
        self.opaque_n += 1
        return V.bvar('?%s#%d' % (why, self.opaque_n))

    def decide(self, v):
        """True / False / dd guard"""
        v = self.resolve(v)
        if isinstance(v, Gate):
            dd = self.alg.dd
            r = dd.F
            for g, x in v.alts:
                t = self.decide(x)
                t = dd.T if t is True else dd.F if t is False else t
                r = dd.OR(r, dd.AND(g, t))
            v = B(r)
        if isinstance(v, Unknown): v = self.freshbool(v.why)
        if isinstance(v, B) or isinstance(v, S):
            g = V.truth(v)
            g = self.alg.simp(self.alg.dd.restrict(g, self.guard))
            if g == self.alg.dd.T: return True
            if g == self.alg.dd.F: return False
            if self.alg.simp(self.alg.dd.AND(g, self.guard)) == self.alg.dd.F: return False
            if self.alg.simp(self.alg.dd.AND(self.alg.dd.NOT(g), self.guard)) == self.alg.dd.F: return True
            return g
        if v is None or v is UNDEFINED: return False
        if isinstance(v, Arr):
            if v.data.size == 1 and not v.sym: return self.decide(v.data.reshape(-1)[0])
            if v.sym: return V.truth(self.freshbool('truth of array'))
            raise Unsupported('truth of an array')
        if isinstance(v, (list, tuple, dict, str, set)): return len(v) != 0
        if isinstance(v, Inst):
            m = v.cls.lookup('__len__')
            if v.seq is not None: return len(v.seq) != 0
            if m is not None and isinstance(m, Fn): return self.decide(self.call(Bound(m, v), [], {}))
            return True
        if isnum(v): return bool(v)
        return True

    def resolve(self, v):
        if isinstance(v, Gate):
            v = v.under(self.guard)
        return v

    def branch(self, alts):
        """evaluate thunks under disjoint guards and join state and value"""
        dd = self.alg.dd
        g0 = self.guard
        snap0 = self.snapshot()
        acc = None
        for g, th in alts:
            gg = dd.AND(g0, g)
            if gg == dd.F: continue
            if acc is not None: self.restore(snap0)
            self.guard = gg
            try:
                val = th()
            except Dead:
                val = UNDEFINED
                self.guard = dd.F
            if self.guard == dd.F:
                if acc is None: acc = (dd.F, None, None)
                continue
            if acc is None or acc[0] == dd.F:
                acc = (self.guard, self.snapshot(), val)
            else:
                v2 = self.mval(acc[0], acc[2], val)
                self.merge(acc[1], acc[0])
                acc = (dd.OR(acc[0], self.guard), self.snapshot(), v2)
        if acc is None or acc[0] == dd.F:
            self.guard = dd.F
            raise Dead()
        self.restore(acc[1])
        self.guard = acc[0]
        return acc[2]

    def dist(self, v, fn):
        """apply fn to the alternatives of a value"""
        v = self.resolve(v)
        if isinstance(v, Gate):
            return self.branch([(g, (lambda x=x: fn(x))) for g, x in v.alts])
        return fn(v)

    # ---- modules
    def module(self, name):
        if name in self.mods: return self.mods[name]
        tree, file = self.src.get(name)
        if tree is None: return None
        m = Module(name, file)
        self.mods[name] = m
        m.env['__name__'] = name
        fr = Frame(None, m.env, m)
        g, self.guard = self.guard, self.alg.dd.T
        self.frames.append(fr)
        try:
            self.block(tree.body)
        finally:
            self.frames.pop()
            self.guard = g
        return m

    def importname(self, name, level, cur):
        if level:
            pk = cur.name.rsplit('.', level)[0]
            name = pk + ('.' + name if name else '')
        if name in self.ext: return self.ext[name]
        if self.src.has(name):
            return self.module(name)
        top = name.split('.')[0]
        if top in self.ext: return self.ext[name] if name in self.ext else self.ext[top]
        return Unknown('module ' + name)

    # ---- statements
    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, s):
        self.steps += 1
        if self.steps > self.maxsteps: raise Unsupported('too many steps')
        fr = self.frames[-1]
        fr.node = s
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None: raise Unsupported('statement %s at %s' % (type(s).__name__, self.site()))
        m(s)

    def s_Pass(self, s): pass

    def s_Global(self, s): pass

    def s_Nonlocal(self, s): pass

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant): return
        self.eval(s.value)

    def s_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets: self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None: self.assign(s.target, self.eval(s.value))

    OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
           ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>', ast.MatMult: '@'}
    COPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}

    def s_AugAssign(self, s):
        op = self.OPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            old = self.eval(ast.copy_location(ast.Name(t.id, ast.Load()), t))
            v = self.eval(s.value)
            self.assign(t, self.inplace(op, old, v))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            old = self.getattr(o, t.attr)
            v = self.eval(s.value)
            self.setattr(o, t.attr, self.inplace(op, old, v))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            i = self.eval(t.slice)
            old = self.getitem(o, i)
            v = self.eval(s.value)
            self.setitem(o, i, self.inplace(op, old, v))
        else:
            raise Unsupported('augmented assignment')

    def inplace(self, op, old, v):
        old = self.resolve(old)
        if isinstance(old, Gate):
            return self.dist(old, lambda x: self.inplace(op, x, v))
        if isinstance(old, Arr) and old.ndim > 0:
            r = self.binop(op, old, v)
            self.store(old, r)
            return old
        if isinstance(old, Inst):
            m = old.cls.lookup({'+': '__iadd__', '*': '__imul__', '-': '__isub__', '/': '__itruediv__'}.get(op, '__i__'))
            if m is not None: return self.call(Bound(m, old), [v], {})
            if self.isfieldlike(old):
                uf = {'+': 'add', '-': 'subtract', '*': 'multiply', '/': 'true_divide', '**': 'power', '//': 'floor_divide', '%': 'remainder'}.get(op)
                if uf: return self.fieldop(uf, [old, v], {'out': (old,)})
        if isinstance(old, list) and op == '+':
            old.extend(self.iterate(v))
            return old
        return self.binop(op, old, v)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name): self.frames[-1].env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o, i = self.eval(t.value), self.eval(t.slice)
                if isinstance(o, dict) and self.hashable(i) in o: del o[self.hashable(i)]

    def s_Assert(self, s):
        v = self.eval(s.test)
        try:
            c = self.decide(v)
        except Unsupported:
            return
        self.asserts.append((self.guard, c, self.site()))
        if c is False:
            raise AbsRaise('AssertionError', self.site())

    def s_If(self, s):
        c = self.decide(self.eval(s.test))
        if c is True: return self.block(s.body)
        if c is False: return self.block(s.orelse)
        self.branch([(c, lambda: self.block(s.body)), (self.alg.dd.NOT(c), lambda: self.block(s.orelse))])

    def s_FunctionDef(self, s):
        f = self.mkfn(s)
        for d in reversed(s.decorator_list):
            dv = self.eval(d)
            f = self.decorate(dv, f)
        self.frames[-1].env[s.name] = f

    def decorate(self, dv, f):
        if dv is staticmethod: return Static(f)
        if dv is classmethod: return ClsM(f)
        if dv is property: return Prop(f)
        if isinstance(dv, (Fn, Native)): 
            try:
                return self.call(dv, [f], {})
            except Unsupported:
                return f
        return f

    def mkfn(self, s):
        a = s.args
        defaults = [self.eval(d) for d in a.defaults]
        kwd = {k.arg: self.eval(d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        fr = self.frames[-1]
        env = self.closure()
        return Fn(s, env, fr.mod, getattr(s, 'name', '<lambda>'), defaults, kwd)

    def closure(self):
        """chain of enclosing function environments"""
        fr = self.frames[-1]
        outer = []
        if fr.fn is not None:
            outer = [fr.env] + list(fr.fn.env or [])
        elif getattr(fr, 'classbody', False):
            outer = list(fr.outer)
        return outer

    def s_ClassDef(self, s):
        bases = [self.eval(b) for b in s.bases]
        fr = self.frames[-1]
        env = {}
        cf = Frame(None, env, fr.mod)
        cf.classbody = True
        cf.outer = self.closure()
        self.frames.append(cf)
        try:
            self.block(s.body)
        finally:
            self.frames.pop()
        c = Class(s.name, bases, env, fr.mod)
        for k, v in env.items():
            f = v.fn if isinstance(v, (Static, ClsM, Prop)) else v
            if isinstance(f, Fn) and f.cls is None:
                f.cls = c
                f.name = s.name + '.' + f.name.split('.')[-1]
        fr.env[s.name] = c

    def s_Return(self, s):
        v = self.eval(s.value) if s.value is not None else None
        fr = self.frames[-1]
        if self.guard == fr.guard0: raise Return(v)
        fr.rets.append((self.guard, v, self.snapshot()))
        self.guard = self.alg.dd.F
        raise Dead()

    def s_Raise(self, s):
        name = 'Exception'
        v = None
        if s.exc is not None:
            e = s.exc
            if isinstance(e, ast.Call): e = e.func
            if isinstance(e, ast.Name): name = e.id
            elif isinstance(e, ast.Attribute): name = e.attr
        self.doraise(name)

    def doraise(self, name):
        g0 = self.trys[-1]['guard'] if self.trys else None
        if self.trys and self.guard == g0 or (not self.trys and self.guard == self.alg.dd.T):
            raise AbsRaise(name, self.site())
        if self.trys:
            self.trys[-1]['pending'].append((self.guard, name, self.snapshot(), self.site()))
        else:
            self.raises.append((self.guard, name, self.site()))
        self.guard = self.alg.dd.F
        raise Dead()

    def s_Try(self, s):
        dd = self.alg.dd
        t = dict(guard=self.guard, pending=[])
        self.trys.append(t)
        nf = len(self.frames)
        nl = len(self.loops)
        g0 = self.guard
        exc = None
        dead = False
        try:
            try:
                self.block(s.body)
            finally:
                self.trys.pop()
        except AbsRaise as e:
            exc = e
            del self.frames[nf:]
            del self.loops[nl:]
            self.guard = g0
        except Dead:
            dead = True
        except (Return, Break, Continue):
            if s.finalbody: self.block(s.finalbody)
            raise
        if exc is not None:
            h = self.handler(s, exc.name)
            if h is None:
                if s.finalbody: self.block(s.finalbody)
                raise exc
            if h.name: self.frames[-1].env[h.name] = Unknown('exception')
            self.block(h.body)
        elif t['pending']:
            alts = []
            acc_g, acc_s = (dd.F, None)
            if not dead and self.guard != dd.F:
                acc_g, acc_s = self.guard, self.snapshot()
            for g, name, snap, site in t['pending']:
                h = self.handler(s, name)
                snap = (snap[0], snap[1][:len(self.frames)], snap[2])
                self.restore(snap)
                self.guard = g
                if h is None:
                    try:
                        self.doraise(name)
                    except Dead:
                        continue
                try:
                    self.block(h.body)
                except Dead:
                    continue
                if acc_s is None: acc_g, acc_s = self.guard, self.snapshot()
                else:
                    self.merge(acc_s, acc_g)
                    acc_g = dd.OR(acc_g, self.guard)
                    acc_s = self.snapshot()
            if acc_s is None:
                self.guard = dd.F
                raise Dead()
            self.restore(acc_s)
            self.guard = acc_g
        elif dead:
            raise Dead()
        else:
            self.block(s.orelse)
        self.block(s.finalbody)

    EXC_PARENTS = {'ValueError': ['Exception'], 'TypeError': ['Exception'], 'IndexError': ['LookupError', 'Exception'], 'KeyError': ['LookupError', 'Exception'],
                   'NotImplementedError': ['RuntimeError', 'Exception'], 'AssertionError': ['Exception'], 'AttributeError': ['Exception'],
                   'ImportError': ['Exception'], 'Exception': []}

    def handler(self, s, name):
        for h in s.handlers:
            if h.type is None: return h
            names = []
            t = h.type
            for x in (t.elts if isinstance(t, ast.Tuple) else [t]):
                names.append(x.id if isinstance(x, ast.Name) else getattr(x, 'attr', '?'))
            if name in names or any(p in names for p in self.EXC_PARENTS.get(name, ['Exception'])): return h
        return None

    def s_With(self, s):
        for it in s.items:
            v = self.eval(it.context_expr)
            if it.optional_vars is not None:
                r = v
                if isinstance(v, Inst) and v.cls.lookup('__enter__'): r = self.call(self.getattr(v, '__enter__'), [], {})
                self.assign(it.optional_vars, r)
        self.block(s.body)
        for it in s.items: pass

    def s_Import(self, s):
        for a in s.names:
            fr = self.frames[-1]
            m = self.importname(a.name if a.asname else a.name.split('.')[0], 0, fr.mod)
            fr.env[a.asname or a.name.split('.')[0]] = m

    def s_ImportFrom(self, s):
        fr = self.frames[-1]
        try:
            m = self.importname(s.module or '', s.level, fr.mod)
        except Unsupported:
            m = Unknown('module %s' % s.module)
        for a in s.names:
            if s.module is None or (isinstance(m, Module) and a.name not in m.env) or isinstance(m, Unknown):
                try:
                    sub = self.importname(((s.module + '.') if s.module else '') + a.name, s.level, fr.mod)
                except Unsupported:
                    sub = Unknown(a.name)
                v = sub
                if isinstance(m, Unknown) and isinstance(sub, Unknown): v = Unknown('%s.%s' % (s.module, a.name))
            else:
                v = self.getattr(m, a.name)
            fr.env[a.asname or a.name] = v

    def s_For(self, s):
        it = self.eval(s.iter)
        it = self.resolve(it)
        chunk = None
        if isinstance(it, Range):
            seq, chunk = self.rangeloop(it)
            self.ranges.append(it)
        else:
            seq = self.iterate(it)
        try:
            self.loop(s, seq, lambda x: self.assign(s.target, x))
        finally:
            if chunk is not None: self.ranges.remove(it)

    def rangeloop(self, r):
        """elements of a range with abstract bounds: one generic iteration"""
        n = len(self.chunks)
        v = V.var('it%d' % n, isint=True, lo=Fraction(0))
        self.chunks.append((V.akey(v), r, v))
        return [v], v

    def loop(self, s, seq, bind):
        dd = self.alg.dd
        L = dict(breaks=[], conts=[], guard=None)
        self.loops.append(L)
        broke = False
        try:
            for x in seq:
                L['guard'] = self.guard
                L['conts'] = []
                try:
                    bind(x)
                    self.block(s.body)
                    dead = False
                except Continue:
                    dead = False
                except Break:
                    broke = True
                    break
                except Dead:
                    dead = True
                self.joinexits(L['conts'], dead)
                if self.guard == dd.F: break
        finally:
            self.loops.remove(L)
        if not broke and s.orelse and self.guard != dd.F: self.block(s.orelse)
        self.joinexits(L['breaks'], self.guard == dd.F)
        if self.guard == dd.F: raise Dead()

    def joinexits(self, exits, dead):
        dd = self.alg.dd
        if dead: self.guard = dd.F
        for g, snap in exits:
            if self.guard == dd.F:
                self.restore(snap)
                self.guard = g
            else:
                self.merge(snap, g)
                self.guard = dd.OR(self.guard, g)
        del exits[:]

    def s_Break(self, s):
        L = self.loops[-1]
        if self.guard == L['guard']: raise Break()
        L['breaks'].append((self.guard, self.snapshot()))
        self.guard = self.alg.dd.F
        raise Dead()

    def s_Continue(self, s):
        L = self.loops[-1]
        if self.guard == L['guard']: raise Continue()
        L['conts'].append((self.guard, self.snapshot()))
        self.guard = self.alg.dd.F
        raise Dead()

    MAXITER = 64

    def s_While(self, s):
        dd = self.alg.dd
        L = dict(breaks=[], conts=[], guard=None)
        self.loops.append(L)
        hook = self.hooks.get('while')
        n = 0
        exits = []
        try:
            while True:
                if hook is not None and n == 0 and hook(self, s): break
                c = self.decide(self.eval(s.test))
                if c is False: break
                n += 1
                if n > self.MAXITER: raise Unsupported('loop at %s does not settle' % self.site())
                if c is not True:
                    g = self.guard
                    gf = dd.AND(g, dd.NOT(c))
                    exits.append((gf, self.snapshot()))
                    self.guard = dd.AND(g, c)
                L['guard'] = self.guard
                L['conts'] = []
                try:
                    self.block(s.body)
                    dead = False
                except Continue:
                    dead = False
                except Break:
                    break
                except Dead:
                    dead = True
                self.joinexits(L['conts'], dead)
                if self.guard == dd.F: break
        finally:
            self.loops.remove(L)
        self.joinexits(exits, self.guard == dd.F)
        self.joinexits(L['breaks'], self.guard == dd.F)
        if self.guard == dd.F: raise Dead()

    # ---- assignment
    def assign(self, t, v):
        if isinstance(t, ast.Name):
            fr = self.frames[-1]
            fr.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.resolve(v)
            if isinstance(v, Unknown):
                for x in t.elts: self.assign(x.value if isinstance(x, ast.Starred) else x, v)
                return
            vs = self.iterate(v)
            st = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if st:
                i = st[0]
                k = len(t.elts) - i - 1
                for x, y in zip(t.elts[:i], vs): self.assign(x, y)
                self.assign(t.elts[i].value, self.register(list(vs[i:len(vs) - k])))
                for x, y in zip(t.elts[i + 1:], vs[len(vs) - k:]): self.assign(x, y)
                return
            if len(vs) != len(t.elts): raise AbsRaise('ValueError', self.site())
            for x, y in zip(t.elts, vs): self.assign(x, y)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            self.setitem(o, self.eval(t.slice), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            raise Unsupported('assignment target')

    # ---- expressions
    def eval(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None: raise Unsupported('expression %s at %s' % (type(e).__name__, self.site()))
        return m(e)

    def e_Constant(self, e):
        if isinstance(e.value, float): return e.value
        return e.value

    def e_Name(self, e):
        fr = self.frames[-1]
        n = e.id
        if n in fr.env:
            v = fr.env[n]
            return self.resolve(v)
        if fr.fn is not None and fr.fn.env:
            for env in fr.fn.env:
                if n in env: return self.resolve(env[n])
        if getattr(fr, 'classbody', False):
            for env in fr.outer:
                if n in env: return env[n]
        if n in fr.mod.env: return fr.mod.env[n]
        if n in BUILTINS: return BUILTINS[n]
        if n in BUILTIN_EXC: return Class(n, [], {})
        return self.unknown('name ' + n)

    def e_Tuple(self, e):
        return tuple(self.elts(e.elts))

    def e_List(self, e):
        return self.register(list(self.elts(e.elts)))

    def e_Set(self, e):
        return set(self.hashable(x) for x in self.elts(e.elts))

    def elts(self, es):
        out = []
        for x in es:
            if isinstance(x, ast.Starred): out += list(self.iterate(self.eval(x.value)))
            else: out.append(self.eval(x))
        return out

    def hashable(self, k):
        if isinstance(k, (str, int, float, type(None), bool, np.dtype)): return k
        if isinstance(k, tuple): return tuple(self.hashable(x) for x in k)
        if isinstance(k, (S, B)): return ('abs', V.akey(k))
        if isinstance(k, (Class, Inst, Stub, Fn, Native)): return k
        if k is Ellipsis: return k
        if isinstance(k, Fraction): return k
        if isinstance(k, type): return k
        if isinstance(k, (list, dict, set, Arr)): raise AbsRaise('TypeError', self.site())
        raise Unsupported('key %r' % (k,))

    def e_Dict(self, e):
        d = self.register({})
        for k, v in zip(e.keys, e.values):
            if k is None: d.update(self.eval(v))
            else: d[self.hashable(self.eval(k))] = self.eval(v)
        return d

    def e_Lambda(self, e):
        return self.mkfn(e)

    def e_IfExp(self, e):
        c = self.decide(self.eval(e.test))
        if c is True: return self.eval(e.body)
        if c is False: return self.eval(e.orelse)
        return self.branch([(c, lambda: self.eval(e.body)), (self.alg.dd.NOT(c), lambda: self.eval(e.orelse))])

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        return self.boolop(isand, e.values)

    def boolop(self, isand, values):
        v = self.eval(values[0])
        if len(values) == 1: return v
        c = self.decide(v)
        if c is True: return self.boolop(isand, values[1:]) if isand else v
        if c is False: return v if isand else self.boolop(isand, values[1:])
        dd = self.alg.dd
        rest = lambda: self.boolop(isand, values[1:])
        if isand: return self.branch([(c, rest), (dd.NOT(c), lambda: v if not isinstance(v, B) else False)])
        return self.branch([(c, lambda: v if not isinstance(v, B) else True), (dd.NOT(c), rest)])

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.assign(e.target, v)
        return v

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        return self.unop(type(e.op), v)

    def unop(self, op, v):
        v = self.resolve(v)
        if op is ast.Not:
            c = self.decide(v)
            if c is True: return False
            if c is False: return True
            return mkb(self.alg.dd.NOT(c))
        if isinstance(v, Unknown): return v
        if isinstance(v, Gate): return self.dist(v, lambda x: self.unop(op, x))
        if op is ast.USub and self.isfieldlike(v) and v.cls.lookup('__neg__') is None: return self.fieldop('negative', [v], {})
        if op is ast.USub:
            if isnum(v): return self.scalar('-', 0, v) if not isinstance(v, (int, float)) or isinstance(v, bool) else -v
            return self.binop('*', v, -1)
        if op is ast.UAdd: return v
        if op is ast.Invert:
            if isinstance(v, int) and not isinstance(v, bool): return ~v
            return self.ufunc(lambda x: invert(x), v)
        raise Unsupported('unary operator')

    def e_BinOp(self, e):
        a = self.eval(e.left)
        b = self.eval(e.right)
        return self.binop(self.OPS[type(e.op)], a, b)

    def scalar(self, op, a, b):
        if type(a) in (int, float, bool) and type(b) in (int, float, bool):
            try:
                if op in ('+', '-', '*', '/', '//', '%', '**', '<<', '>>', '&', '|', '^'):
                    r = eval('a %s b' % op, {'a': a, 'b': b})
                    if not isinstance(r, complex): return r
            except ZeroDivisionError:
                return self.unknown('division by zero')
        return V.binop(op, a, b)

    def binop(self, op, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(a, Gate): return self.dist(a, lambda x: self.binop(op, x, b))
        if isinstance(b, Gate): return self.dist(b, lambda x: self.binop(op, a, x))
        if isinstance(a, Unknown): return a
        if isinstance(b, Unknown): return b
        if isnum(a) and isnum(b): return self.scalar(op, a, b)
        if isinstance(a, str) or isinstance(b, str):
            if op == '%': 
                try: return a % (tuple(str(x) for x in b) if isinstance(b, tuple) else str(b))
                except Exception: return a
            if op == '+' and isinstance(a, str) and isinstance(b, str): return a + b
            if op == '*' and isinstance(b, int): return a * b
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and op == '+' and type(a) is type(b):
            r = a + b
            return self.register(r) if isinstance(r, list) else r
        if op == '*' and isinstance(a, (list, tuple)) and isinstance(b, int):
            r = a * b
            return self.register(r) if isinstance(r, list) else r
        if op == '*' and isinstance(b, (list, tuple)) and isinstance(a, int): return self.binop(op, b, a)
        if isinstance(a, set) and isinstance(b, set):
            return {'-': a - b, '|': a | b, '&': a & b, '^': a ^ b}[op]
        for x, y, name in ((a, b, DUNDER.get(op)), (b, a, RDUNDER.get(op))):
            if isinstance(x, Stub) and hasattr(x, 'binop'):
                return x.binop(self, op, a, b)
            if isinstance(x, Inst):
                m = x.cls.lookup(name)
                if m is not None: return self.call(Bound(m, x), [y], {})
                if self.isfieldlike(x):
                    uf = {'+': 'add', '-': 'subtract', '*': 'multiply', '/': 'true_divide', '**': 'power', '//': 'floor_divide', '%': 'remainder',
                          '&': 'bitwise_and', '|': 'bitwise_or', '^': 'bitwise_xor'}.get(op)
                    if uf is None: return self.unknown('operation on a field')
                    return self.fieldop(uf, [a, b], {})
        if isarrlike(a) or isarrlike(b):
            if op == '@':
                a, b = self.resolve(a), self.resolve(b)
                if isinstance(a, (Unknown, Gate)) or isinstance(b, (Unknown, Gate)): return self.unknown('matrix product')
                return self.call(self.getattr(self.asarr(a), 'dot'), [self.asarr(b)], {})
            return self.ufunc(lambda x, y: self.scalar(op, x, y), a, b, op=op)
        if op == '-' and isinstance(a, Arr): pass
        return self.unknown('operator %s on %s, %s' % (op, type(a).__name__, type(b).__name__))

    def isfieldlike(self, x):
        return isinstance(x, Inst) and x.cls.lookup('__array_ufunc__') is not None

    def fieldop(self, uf, args, kw, method='__call__'):
        x = [a for a in list(args) + list(kw.get('out') or ()) if self.isfieldlike(a)][0]
        m = x.cls.lookup('__array_ufunc__')
        r = self.call(Bound(m, x), [self.ext['numpy'].attr(self, uf), method] + list(args), kw)
        if isinstance(r, Native) and r.name == 'NotImplemented': raise AbsRaise('TypeError', self.site())
        return r

    def e_Compare(self, e):
        left = self.eval(e.left)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r)
            v = self.compare(op, left, right)
            res = v if res is None else self.andv(res, v)
            left = right
        return res

    def andv(self, a, b):
        if isinstance(a, bool): return b if a else False
        if isinstance(b, bool) and b: return a
        if isnum(a) and isnum(b): return V.binop('&', a, b)
        return self.binop('&', a, b)

    def compare(self, op, a, b):
        t = type(op)
        if t is ast.Is or t is ast.IsNot:
            r = self.is_(a, b)
            return r if t is ast.Is else self.unop(ast.Not, r)
        if t is ast.In or t is ast.NotIn:
            r = self.contains(b, a)
            return r if t is ast.In else self.unop(ast.Not, r)
        return self.cmpop(self.COPS[t], a, b)

    def is_(self, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(a, Gate): return self.dist(a, lambda x: self.is_(x, b))
        if isinstance(b, Gate): return self.dist(b, lambda x: self.is_(a, x))
        if a is b: return True
        if isinstance(a, Unknown) or isinstance(b, Unknown): return self.freshbool('is')
        if isinstance(a, (bool, type(None))) or isinstance(b, (bool, type(None))):
            if isinstance(a, B) or isinstance(b, B): return self.cmpop('==', a, b) if isnum(a) and isnum(b) else False
            return False
        if isinstance(a, int) and isinstance(b, int): return a == b
        if isinstance(a, type) or isinstance(b, type): return a is b
        if isinstance(a, Bound) and isinstance(b, Bound): return a.fn is b.fn and a.self_ is b.self_
        return False

    def contains(self, c, x):
        c, x = self.resolve(c), self.resolve(x)
        if isinstance(c, Gate): return self.dist(c, lambda y: self.contains(y, x))
        x = self.resolve(x)
        if isinstance(x, Gate): return self.dist(x, lambda y: self.contains(c, y))
        if isinstance(c, Unknown) or isinstance(x, Unknown): return self.freshbool('in')
        if isinstance(c, dict):
            try: return self.hashable(x) in c
            except Unsupported: raise AbsRaise('TypeError', self.site())
        if isinstance(c, set): return self.hashable(x) in c
        if isinstance(c, str): return isinstance(x, str) and x in c
        if isinstance(c, Stub) and hasattr(c, 'contains'): return c.contains(self, x)
        if isinstance(c, Inst):
            m = c.cls.lookup('__contains__')
            if m is not None: return self.call(Bound(m, c), [x], {})
        r = False
        for y in self.iterate(c):
            v = True if y is x else self.cmpop('==', y, x)
            c1 = self.decide(v)
            if c1 is True: return True
            if c1 is False: continue
            r = mkb(self.alg.dd.OR(V.truth(r), c1))
        return r

    def cmpop(self, op, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(a, Gate): return self.dist(a, lambda x: self.cmpop(op, x, b))
        if isinstance(b, Gate): return self.dist(b, lambda x: self.cmpop(op, a, x))
        if isinstance(a, Unknown): return a
        if isinstance(b, Unknown): return b
        if isnum(a) and isnum(b): return V.cmp(op, a, b)
        if isinstance(a, Stub) and hasattr(a, 'cmp'): return a.cmp(self, op, b)
        if isinstance(b, Stub) and hasattr(b, 'cmp'): return b.cmp(self, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op), a)
        if isinstance(a, np.dtype) or isinstance(b, np.dtype):
            try:
                r = todtype(a) == todtype(b)
            except Exception:
                r = False
            return r if op == '==' else not r
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            if isinstance(a, (Arr, Comp)) or isinstance(b, (Arr, Comp)):
                if isinstance(a, str) or isinstance(b, str): return op == '!='
                return self.unknown('comparison of an array with None')
            try:
                return {'==': lambda: type(a) is type(b) and a == b, '!=': lambda: not (type(a) is type(b) and a == b), '<': lambda: a < b, '>': lambda: a > b,
                        '<=': lambda: a <= b, '>=': lambda: a >= b}[op]()
            except TypeError:
                raise AbsRaise('TypeError', self.site())
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and not (isarrlike(a) or isarrlike(b)):
            return self.seqcmp(op, a, b)
        if isinstance(a, Inst) or isinstance(b, Inst):
            x, y = (a, b) if isinstance(a, Inst) else (b, a)
            if x.cls.lookup('__eq__') and op in ('==', '!='):
                r = self.call(Bound(x.cls.lookup('__eq__'), x), [y], {})
                return r if op == '==' else self.unop(ast.Not, r)
            if self.isfieldlike(x):
                uf = {'==': 'equal', '!=': 'not_equal', '<': 'less', '<=': 'less_equal', '>': 'greater', '>=': 'greater_equal'}[op]
                return self.fieldop(uf, [a, b], {})
        if isarrlike(a) or isarrlike(b):
            return self.ufunc(lambda x, y: V.cmp(op, x, y), a, b, dtype='?')
        if op in ('==', '!='):
            r = a is b
            if isinstance(a, (Class, Fn, Inst, type, dict, set)) or isinstance(b, (Class, Fn, Inst, type, dict, set)) or a is Ellipsis or b is Ellipsis:
                return r if op == '==' else not r
            try:
                r = bool(a == b)
            except Exception:
                return self.unknown('comparison')
            return r if op == '==' else not r
        return self.unknown('comparison of %s and %s' % (type(a).__name__, type(b).__name__))

    def seqcmp(self, op, a, b):
        dd = self.alg.dd
        if op in ('==', '!='):
            if len(a) != len(b): return op == '!='
            r = dd.T
            for x, y in zip(a, b):
                c = self.decide(self.cmpop('==', x, y))
                r = dd.AND(r, dd.T if c is True else dd.F if c is False else c)
            return mkb(r if op == '==' else dd.NOT(r))
        try:
            return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[op]
        except Exception:
            return self.unknown('comparison of sequences')

    def e_Attribute(self, e):
        return self.getattr(self.eval(e.value), e.attr)

    def e_Subscript(self, e):
        return self.getitem(self.eval(e.value), self.eval(e.slice))

    def e_Slice(self, e):
        f = lambda x: None if x is None else self.eval(x)
        return slice(f(e.lower), f(e.upper), f(e.step))

    def e_Index(self, e):
        return self.eval(e.value)

    def e_Starred(self, e):
        raise Unsupported('starred')

    def e_JoinedStr(self, e):
        return '<str>'

    def e_FormattedValue(self, e):
        return '<str>'

    def comp(self, gens, emit, i=0):
        if i == len(gens):
            emit()
            return
        g = gens[i]
        it = self.resolve(self.eval(g.iter))
        if isinstance(it, Range):
            seq, _ = self.rangeloop(it)
        else: seq = self.iterate(it)
        for x in seq:
            self.assign(g.target, x)
            ok = True
            cond = None
            for c in g.ifs:
                d = self.decide(self.eval(c))
                if d is False:
                    ok = False
                    break
                if d is not True: raise Unsupported('filtered comprehension at %s' % self.site())
            if ok: self.comp(gens, emit, i + 1)

    def scope(self, fn):
        """comprehension scope"""
        fr = self.frames[-1]
        env = dict(fr.env)
        f2 = Frame(fr.fn, env, fr.mod)
        f2.guard0 = fr.guard0
        f2.node = fr.node
        if getattr(fr, 'classbody', False):
            f2.classbody, f2.outer = True, fr.outer
        if fr.fn is None and not getattr(fr, 'classbody', False):
            pass
        self.frames.append(f2)
        try:
            return fn()
        finally:
            self.frames.pop()

    def e_ListComp(self, e):
        out = []

        def run():
            self.comp(e.generators, lambda: out.append(self.eval(e.elt)))
        self.scope(run)
        return self.register(out)

    def e_GeneratorExp(self, e):
        return self.e_ListComp(e)

    def e_SetComp(self, e):
        out = []
        self.scope(lambda: self.comp(e.generators, lambda: out.append(self.hashable(self.eval(e.elt)))))
        return set(out)

    def e_DictComp(self, e):
        d = self.register({})

        def run():
            def emit():
                k = self.hashable(self.eval(e.key))
                d[k] = self.eval(e.value)
            self.comp(e.generators, emit)
        self.scope(run)
        return d

    def e_Yield(self, e):
        fr = self.frames[-1]
        v = self.eval(e.value) if e.value is not None else None
        if not hasattr(fr, 'yields'): raise Unsupported('yield')
        fr.yields.append(v)
        return None

    def e_YieldFrom(self, e):
        fr = self.frames[-1]
        fr.yields += list(self.iterate(self.eval(e.value)))

    def e_Call(self, e):
        # super()
        f = e.func
        fv = self.eval(f)
        args = self.elts(e.args)
        kw = {}
        for k in e.keywords:
            v = self.eval(k.value)
            if k.arg is None:
                if isinstance(v, dict): kw.update(v)
                else: raise Unsupported('** argument')
            else: kw[k.arg] = v
        fr = self.frames[-1]
        old = fr.node
        fr.node = e
        try:
            return self.call(fv, args, kw)
        finally:
            fr.node = old

    # ---- calls
    def call(self, f, args, kw):
        f = self.resolve(f)
        self.steps += 1
        if self.steps > self.maxsteps: raise Unsupported('too many steps')
        if isinstance(f, Gate): return self.dist(f, lambda x: self.call(x, args, kw))
        if isinstance(f, Unknown):
            for a in list(args) + list(kw.values()):
                self.havoc(a)
            return self.unknown('call of ' + f.why)
        if isinstance(f, Bound):
            if isinstance(f.fn, Native): return f.fn.fn(self, f.self_, *args, **kw)
            return self.call(f.fn, [f.self_] + list(args), kw)
        if isinstance(f, Native):
            try:
                return f.fn(self, *args, **kw)
            except TypeError as e:
                if 'argument' in str(e): return self.unknown('call of %s: %s' % (f.name, e))
                raise
        if isinstance(f, (Static,)): return self.call(f.fn, args, kw)
        if isinstance(f, Fn): return self.callfn(f, args, kw)
        if isinstance(f, Class): return self.instantiate(f, args, kw)
        if isinstance(f, Stub):
            if hasattr(f, 'call'): return f.call(self, *args, **kw)
            return self.unknown('call of ' + type(f).__name__)
        if isinstance(f, Inst):
            m = f.cls.lookup('__call__')
            if m is not None: return self.call(Bound(m, f), args, kw)
        if f in (staticmethod, classmethod, property): return self.decorate(f, args[0])
        if isinstance(f, np.dtype): return self.unknown('call of a dtype')
        return self.unknown('call of %s' % type(f).__name__)

    def havoc(self, a):
        """contents are unknown after a call of something without a model"""
        if isinstance(a, Arr) and a.ext is None and a.data.size:
            pass

    def instantiate(self, c, args, kw):
        nat = c.natives()
        o = Inst(c)
        self.register(o.attrs)
        if any(x is list or (isinstance(x, Native) and x.name == 'list') for x in nat):
            o.seq = list(self.iterate(args[0])) if args else []
            self.register(o.seq)
            return o
        m = c.lookup('__init__')
        if m is not None:
            self.call(Bound(m, o), args, kw)
        return o

    def bindargs(self, f, args, kw):
        a = f.node.args
        env = {}
        pos = [x.arg for x in getattr(a, 'posonlyargs', [])] + [x.arg for x in a.args]
        kw = dict(kw)
        for n, v in zip(pos, args): env[n] = v
        if len(args) > len(pos):
            if a.vararg is None: raise AbsRaise('TypeError', self.site())
            env[a.vararg.arg] = tuple(args[len(pos):])
        elif a.vararg is not None:
            env[a.vararg.arg] = ()
        kwo = [x.arg for x in a.kwonlyargs]
        for n in list(kw):
            if n in pos or n in kwo:
                if n in env: raise AbsRaise('TypeError', self.site())
                env[n] = kw.pop(n)
        if kw:
            if a.kwarg is None: raise AbsRaise('TypeError', '%s: unexpected argument %s of %s' % (self.site(), list(kw)[0], f.name))
        if a.kwarg is not None: env[a.kwarg.arg] = self.register(dict(kw))
        nd = len(f.defaults)
        for n, d in zip(pos[len(pos) - nd:], f.defaults):
            if n not in env: env[n] = d
        for n in kwo:
            if n not in env:
                if n not in f.kwdefaults: raise AbsRaise('TypeError', self.site())
                env[n] = f.kwdefaults[n]
        for n in pos:
            if n not in env: raise AbsRaise('TypeError', '%s: missing argument %s of %s' % (self.site(), n, f.name))
        return env

    def callfn(self, f, args, kw):
        h = self.hooks.get(f.name)
        if h is not None:
            r = h(self, f, args, kw)
            if r is not NotImplemented: return r
        if len(self.frames) > 60: raise Unsupported('call depth')
        env = self.bindargs(f, args, kw)
        self.funcs.add('%s:%s' % (os.path.basename(f.mod.file), f.name))
        fr = Frame(f, env, f.mod)
        fr.guard0 = self.guard
        dd = self.alg.dd
        isgen = isgenerator(f.node)
        if isgen: fr.yields = []
        nf, nl = len(self.frames), len(self.loops)
        self.frames.append(fr)
        loops, self.loops = self.loops, []
        val = None
        try:
            try:
                if isinstance(f.node, ast.Lambda):
                    fr.node = f.node.body
                    val = self.eval(f.node.body)
                else:
                    self.block(f.node.body)
            except Return as r:
                val = r.value
            except Dead:
                self.guard = dd.F
                val = UNDEFINED
            if fr.rets:
                g = self.guard
                v = val
                for rg, rv, snap in fr.rets:
                    if g == dd.F:
                        self.restore(snap)
                        g, v = rg, rv
                    else:
                        v = self.mval(rg, rv, v)
                        self.merge(snap, rg)
                        g = dd.OR(g, rg)
                self.guard = g
                val = v
            if self.guard == dd.F: raise Dead()
        finally:
            del self.frames[nf:]
            self.loops = loops
        if isgen: return self.register(fr.yields)
        return val

    # ---- iteration
    def iterate(self, v):
        v = self.resolve(v)
        if isinstance(v, (list, tuple)): return list(v)
        if isinstance(v, (set, frozenset)): return sorted(v, key=repr)
        if isinstance(v, dict): return [self.unhash(k) for k in v]
        if isinstance(v, range): return list(v)
        if isinstance(v, str): return list(v)
        if isinstance(v, Arr):
            if v.ndim == 0: raise AbsRaise('TypeError', self.site())
            if 0 in v.sym: raise Unsupported('iteration over a symbolic axis at %s' % self.site())
            return [self.getitem(v, i) for i in range(v.data.shape[0])]
        if isinstance(v, Flat):
            return [v.arr.data[i] for i in np.ndindex(*v.arr.data.shape)]
        if isinstance(v, Inst):
            if v.seq is not None: return list(v.seq)
            m = v.cls.lookup('__iter__')
            if m is not None: return self.iterate(self.call(Bound(m, v), [], {}))
            m = v.cls.lookup('__getitem__')
        if isinstance(v, Range): return self.rangeloop(v)[0]
        if isinstance(v, Gate):
            ls = [self.iterate(x) for g, x in v.alts]
            if len(set(len(l) for l in ls)) == 1:
                out = ls[-1]
                for (g, x), l in list(zip(v.alts, ls))[:-1]:
                    out = [self.mval(g, a, b) for a, b in zip(l, out)]
                return out
        if isinstance(v, Stub) and hasattr(v, 'iterate'): return v.iterate(self)
        raise Unsupported('iteration over %r at %s' % (v, self.site()))

    def unhash(self, k):
        return k

    # ---- attributes
    def getattr(self, o, name):
        o = self.resolve(o)
        if isinstance(o, Gate): return self.dist(o, lambda x: self.getattr(x, name))
        name = self.resolve(name)
        if isinstance(name, Gate): return self.dist(name, lambda x: self.getattr(o, x))
        if isinstance(o, Unknown): return Unknown(o.why + '.' + name)
        if isinstance(o, Module):
            if name in o.env: return o.env[name]
            return self.unknown('%s.%s' % (o.name, name))
        if isinstance(o, Inst):
            if name in o.attrs: return self.resolve(o.attrs[name])
            m = o.cls.lookup(name)
            if m is not None: return self.bind(m, o, o.cls)
            if name == '__class__': return o.cls
            if name == '__dict__': return o.attrs
            if o.seq is not None: return self.seqattr(o.seq, name)
            if any(isinstance(b, Unknown) for b in o.cls.natives()): return self.unknown('inherited attribute ' + name)
            raise AbsRaise('AttributeError', self.site())
        if isinstance(o, Class):
            m = o.lookup(name)
            if m is not None:
                if isinstance(m, ClsM): return Bound(m.fn, o)
                if isinstance(m, Static): return m.fn
                return m
            if name == '__name__': return o.name
            return self.unknown('%s.%s' % (o.name, name))
        if isinstance(o, Struct):
            return o.attr(self, name)
        if isinstance(o, Stub): return self.resolve(o.attr(self, name))
        if isinstance(o, Arr): return arr_attr(self, o, name)
        if isinstance(o, Comp): return comp_attr(self, o, name)
        if isinstance(o, Flat):
            if name == 'size': return arr_attr(self, o.arr, 'size')
            if name == 'dtype': return o.arr.dtype
            return self.unknown('flat.' + name)
        if isinstance(o, (list, dict, tuple, set, str)): return self.seqattr(o, name)
        if isnum(o): return num_attr(self, o, name)
        if isinstance(o, np.dtype):
            if name in ('itemsize', 'kind', 'names', 'char', 'str', 'name', 'type', 'shape', 'base', 'subdtype', 'fields'): 
                v = getattr(o, name)
                return v
        if isinstance(o, slice): return getattr(o, name)
        if isinstance(o, (Fn, Native)):
            if name == '__name__': return o.name
            if isinstance(o, Native) and hasattr(o, 'methods') and name in o.methods: return o.methods[name]
        if isinstance(o, type) and o in (list, dict, tuple): 
            return Native(lambda I, x, *a, **k: I.call(I.seqattr(x.seq if isinstance(x, Inst) else x, name), list(a), k), name)
        if isinstance(o, AbsRaise): return self.unknown('exception')
        if o is None: raise AbsRaise('AttributeError', self.site())
        return self.unknown('attribute %s of %s' % (name, type(o).__name__))

    def bind(self, m, o, cls):
        if isinstance(m, Fn) or isinstance(m, Native): return Bound(m, o)
        if isinstance(m, Static): return m.fn
        if isinstance(m, ClsM): return Bound(m.fn, cls)
        if isinstance(m, Prop): return self.call(m.fn, [o], {})
        return m

    def setattr(self, o, name, v):
        o = self.resolve(o)
        if isinstance(o, Gate):
            self.dist(o, lambda x: self.setattr(x, name, v))
        elif isinstance(o, Inst): o.attrs[name] = v
        elif isinstance(o, Struct): o.attrs[name] = v
        elif isinstance(o, Stub): o.setattr(self, name, v)
        elif isinstance(o, Class): o.attrs[name] = v
        elif isinstance(o, Arr):
            if name == 'shape':
                raise Unsupported('assignment of shape')
            o.attrs[name] = v
        elif isinstance(o, Module): o.env[name] = v
        elif isinstance(o, Unknown): pass
        elif isinstance(o, ArrFlags): o.arr.flags[name] = v
        else: raise Unsupported('attribute store on %s' % type(o).__name__)

    def seqattr(self, o, name):
        if isinstance(o, list):
            if name == 'append': return Native(lambda I, x: o.append(x), name)
            if name == 'extend': return Native(lambda I, x: o.extend(I.iterate(x)), name)
            if name == 'insert': return Native(lambda I, i, x: o.insert(i, x), name)
            if name == 'pop': return Native(lambda I, i=-1: o.pop(i), name)
            if name == 'index': return Native(lambda I, x: o.index(x), name)
            if name == 'reverse': return Native(lambda I: o.reverse(), name)
            if name == 'remove': return Native(lambda I, x: o.remove(x), name)
            if name == 'copy': return Native(lambda I: I.register(list(o)), name)
            if name == '__getitem__': return Native(lambda I, i: I.getitem(o, i), name)
            if name == '__iter__': return Native(lambda I: list(o), name)
            if name == 'sort': return Native(lambda I, **k: None, name)
        if isinstance(o, tuple):
            if name == 'index': return Native(lambda I, x: o.index(x), name)
        if isinstance(o, dict):
            if name == 'items': return Native(lambda I: [(k, v) for k, v in o.items()], name)
            if name == 'keys': return Native(lambda I: list(o.keys()), name)
            if name == 'values': return Native(lambda I: list(o.values()), name)
            if name == 'get': return Native(lambda I, k, d=None: I.dictget(o, k, d), name)
            if name == 'pop':
                return Native(lambda I, k, d=None: o.pop(I.hashable(k), d), name)
            if name == 'update':
                def upd(I, x=None, **k):
                    if x is not None: o.update(x)
                    o.update(k)
                return Native(upd, name)
            if name == 'setdefault': return Native(lambda I, k, d=None: o.setdefault(I.hashable(k), d), name)
            if name == 'copy': return Native(lambda I: I.register(dict(o)), name)
            if name == 'clear': return Native(lambda I: o.clear(), name)
            if name == '__getitem__': return Native(lambda I, i: I.getitem(o, i), name)
        if isinstance(o, str):
            if name in ('lower', 'upper', 'strip', 'startswith', 'endswith', 'replace', 'split', 'format', 'join', 'rstrip', 'lstrip'):
                def f(I, *a):
                    try: return getattr(o, name)(*a)
                    except Exception: return '<str>'
                return Native(f, name)
        if isinstance(o, set):
            if name == 'add': return Native(lambda I, x: o.add(I.hashable(x)), name)
        if name == '__iter__': return Native(lambda I: I.iterate(o), name)
        if name == '__len__': return Native(lambda I: len(o), name)
        return self.unknown('%s.%s' % (type(o).__name__, name))

    def dictget(self, o, k, d):
        k = self.resolve(k)
        if isinstance(k, Gate): return self.dist(k, lambda x: self.dictget(o, x, d))
        return o.get(self.hashable(k), d)

    # ---- items
    def getitem(self, o, i):
        o, i = self.resolve(o), self.resolve(i)
        if isinstance(o, Gate): return self.dist(o, lambda x: self.getitem(x, i))
        if isinstance(i, Gate): return self.dist(i, lambda x: self.getitem(o, x))
        if isinstance(o, Unknown): return o
        if isinstance(i, Unknown): return i
        if isinstance(o, (list, tuple, str)):
            if isinstance(i, slice):
                try: return self.register(o[i]) if isinstance(o, list) else o[i]
                except TypeError: return self.unknown('slice of a list')
            if isinstance(i, (int, np.integer)):
                try: return self.resolve(o[i])
                except IndexError: raise AbsRaise('IndexError', self.site())
            if isinstance(i, S):
                r = None
                n = len(o)
                for k in range(n - 1, -1, -1):
                    g = V.truth(V.cmp('==', i, k))
                    r = o[k] if r is None else self.mval(g, o[k], r)
                return r
            if isinstance(i, Arr) and i.ndim == 0: return self.getitem(o, i.data[()])
            return self.unknown('index of a list')
        if isinstance(o, dict):
            if hasattr(o, 'abstract'): return o.abstract(self, i)
            k = self.hashable(i)
            if k in o: return self.resolve(o[k])
            if o.get('__auto__'): 
                return self.unknown('uninitialised element')
            raise AbsRaise('KeyError', self.site())
        if isinstance(o, Arr): return arr_getitem(self, o, i)
        if isinstance(o, Flat):
            if i is Ellipsis or i == slice(None): return o.arr
            return self.unknown('index of flat')
        if isinstance(o, Comp): 
            if i is Ellipsis or (isinstance(i, slice) and i == slice(None)): return o
            return self.unknown('index of a masked array')
        if isinstance(o, Inst):
            if o.seq is not None: return self.getitem(o.seq, i)
            m = o.cls.lookup('__getitem__')
            if m is not None: return self.call(Bound(m, o), [i], {})
        if isinstance(o, Struct):
            if i == 0: return o
            return self.unknown('struct index')
        if isinstance(o, Stub) and hasattr(o, 'getitem'): return o.getitem(self, i)
        if isinstance(o, Bound) and isinstance(o.fn, Native) and hasattr(o.fn, 'index'): return o.fn.index(self, i)
        if isinstance(o, range): return o[i]
        return self.unknown('index of %s' % type(o).__name__)

    def setitem(self, o, i, v):
        o, i = self.resolve(o), self.resolve(i)
        if isinstance(o, Gate): return self.dist(o, lambda x: self.setitem(x, i, v))
        if isinstance(o, Unknown): return
        if isinstance(o, list):
            if isinstance(i, int): o[i] = v
            elif isinstance(i, slice): o[i] = list(self.iterate(v))
            elif isinstance(i, S):
                for k in range(len(o)):
                    o[k] = self.mval(V.truth(V.cmp('==', i, k)), v, o[k])
            else: raise Unsupported('list store')
            return
        if isinstance(o, dict):
            if isinstance(i, Gate): return self.dist(i, lambda x: self.setitem(o, x, v))
            if isinstance(i, S):
                ks = [k for k in o if isinstance(k, int)]
                if ks and '__auto__' not in o or ks:
                    for k in ks: o[k] = self.mval(V.truth(V.cmp('==', i, k)), v, o[k])
                    return
            o[self.hashable(i)] = v
            return
        if isinstance(o, Arr): return arr_setitem(self, o, i, v)
        if isinstance(o, Flat): return flat_setitem(self, o, i, v)
        if isinstance(o, Inst):
            if o.seq is not None: return self.setitem(o.seq, i, v)
            m = o.cls.lookup('__setitem__')
            if m is not None: return self.call(Bound(m, o), [i, v], {})
        if isinstance(o, Struct):
            if i == 0:
                if isinstance(v, Struct):
                    for k in v.attrs:
                        x = v.attrs[k]
                        o.attrs[k] = self.register(dict(x)) if isinstance(x, dict) else x
                    return
            raise Unsupported('struct store')
        if isinstance(o, Stub) and hasattr(o, 'setitem'): return o.setitem(self, i, v)
        raise Unsupported('store into %s' % type(o).__name__)

    # ---- arrays
    def asarr(self, v, dtype=None):
        """view of a value as an abstract array (no copy for arrays)"""
        v = self.resolve(v)
        if isinstance(v, Arr): return v
        if isinstance(v, Inst) and self.isfieldlike(v):
            return self.getattr(v, 'value')
        if isinstance(v, Inst) and v.seq is not None: v = v.seq
        if isinstance(v, Comp): return v
        if isinstance(v, Flat):
            a = v.arr
            return Arr(a.data.reshape(-1), a.dtype, dict(a.sym) if a.ndim == 1 else {})
        if isinstance(v, (list, tuple, range)):
            items = [self.asarr(x) if isinstance(x, (list, tuple, Arr)) or (isinstance(x, Inst)) else x for x in v]
            if any(isinstance(x, Gate) for x in items):
                items = [x for x in items]
            if any(isinstance(x, Comp) for x in items): raise Unsupported('list of masked arrays')
            if any(isinstance(x, Arr) for x in items):
                xs = [x if isinstance(x, Arr) else self.asarr(x) for x in items]
                sh = xs[0].data.shape
                if any(x.data.shape != sh for x in xs): raise Unsupported('ragged array')
                data = np.empty((len(xs),) + sh, dtype=object)
                for k, x in enumerate(xs): data[k] = x.data
                dt = np.result_type(*[x.dtype for x in xs])
                sym = {d + 1: n for x in xs for d, n in x.sym.items()}
                return self.new(data, dt, sym)
            data = np.empty(len(items), dtype=object)
            dt = None
            for k, x in enumerate(items):
                data[k] = x
            return self.new(data, scalardtype(items))
        if isnum(v):
            data = np.empty((), dtype=object)
            data[()] = v
            return self.new(data, scalardtype([v]))
        if isinstance(v, Unknown):
            data = np.empty((), dtype=object)
            data[()] = v
            return Arr(data, 'f8')
        if v is None:
            data = np.empty((), dtype=object)
            data[()] = None
            return Arr(data, 'O')
        raise Unsupported('array of %s' % type(v).__name__)

    def ufunc(self, f, *args, dtype=None, op=None):
        """elementwise operation"""
        args = [self.resolve(a) for a in args]
        for k, a in enumerate(args):
            if isinstance(a, Gate):
                return self.dist(a, lambda x: self.ufunc(f, *(args[:k] + [x] + args[k + 1:]), dtype=dtype, op=op))
            if isinstance(a, Unknown): return a
        if all(isnum(a) for a in args): return f(*args)
        cs = [a for a in args if isinstance(a, Comp)]
        if cs:
            m = cs[0].mask
            if any(not same(c.mask, m) for c in cs): return self.unknown('differently masked arrays')
            return Comp(m, self.ufunc(f, *[a.full if isinstance(a, Comp) else a for a in args], dtype=dtype, op=op))
        arrs = [self.asarr(a) for a in args]
        if any(a.fields is not None for a in arrs): return self.unknown('operation on a structured array')
        n = max(a.ndim for a in arrs)
        sym = {}
        for a in arrs:
            off = n - a.ndim
            for d, l in a.sym.items(): sym[d + off] = l
        fu = V.pyfunc(f, len(arrs), 1)
        try:
            data = fu(*[a.data for a in arrs])
        except ValueError:
            raise AbsRaise('ValueError', self.site() + ' (shapes do not match)')
        if not isinstance(data, np.ndarray) or data.dtype != object:
            d0 = np.empty(np.shape(data), dtype=object)
            d0[...] = data
            data = d0
        for d in list(sym):
            if data.shape[d] != 1: return self.unknown('shapes do not match')
        if dtype is None:
            dts = [a.dtype for a, x in zip(arrs, args) if not isnum(x)] or [a.dtype for a in arrs]
            dtype = np.result_type(*[d for d in dts if d.names is None and d.kind in 'biufc'] or [np.dtype('f8')])
            for a, x in zip(arrs, args):
                if isnum(x) and a.dtype.kind > '' and 'biufc'.index(a.dtype.kind) > 'biufc'.index(dtype.kind): dtype = np.result_type(dtype, a.dtype)
            if op == '/' and dtype.kind in 'biu': dtype = np.dtype('f8')
        if data.ndim == 0: return data[()]
        return self.new(data, dtype, sym)

    def store(self, dst, val, site=None):
        """write an array or scalar into all elements of dst"""
        if dst.ext is not None or dst.root.ext is not None: pass
        if dst.fields is not None:
            val = self.resolve(val)
            if isinstance(val, Arr) and val.fields is not None:
                for a, b in zip(dst.fields.values(), val.fields.values()): self.store(a, b)
                return
            raise Unsupported('store into a structured array')
        val = self.resolve(val)
        if isinstance(val, Gate):
            self.dist(val, lambda x: self.store(dst, x))
            return
        if isinstance(val, Comp): raise Unsupported('store of a masked array')
        if isinstance(val, Unknown) or isnum(val):
            if isnum(val): val = castto(dst.dtype, val)
            if dst.data.ndim == 0: dst.data[()] = val
            else: dst.data[...] = val
            return
        a = self.asarr(val)
        f = V.pyfunc(lambda x: castto(dst.dtype, x), 1, 1)
        data = f(a.data)
        if not isinstance(data, np.ndarray):
            dst.data[...] = data
            return
        for d in dst.sym:
            k = d - (dst.ndim - data.ndim)
            if k >= 0 and data.shape[k] != 1: raise Unsupported('store into a symbolic axis')
        for d in range(data.ndim):
            if d in a.sym:
                k = d + dst.ndim - data.ndim
                if k >= 0 and k not in dst.sym: raise Unsupported('store of a symbolic axis')
        try:
            dst.data[...] = data
        except ValueError:
            raise AbsRaise('ValueError', self.site() + ' (shapes do not match)')


DUNDER = {'+': '__add__', '-': '__sub__', '*': '__mul__', '/': '__truediv__', '**': '__pow__', '//': '__floordiv__', '%': '__mod__', '&': '__and__', '|': '__or__'}
RDUNDER = {'+': '__radd__', '-': '__rsub__', '*': '__rmul__', '/': '__rtruediv__', '**': '__rpow__', '//': '__rfloordiv__', '%': '__rmod__', '&': '__rand__', '|': '__ror__'}


class ArrFlags(object):
    def __init__(self, arr): self.arr = arr


def isgenerator(node):
    r = getattr(node, '_isgen', None)
    if r is None:
        r = False
        stack = list(node.body) if isinstance(node.body, list) else [node.body]
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): continue
            stack += list(ast.iter_child_nodes(n))
        node._isgen = r
    return r


def invert(x):
    if isinstance(x, (bool, np.bool_)): return not x
    if isinstance(x, B): return mkb(V.ALG.dd.NOT(x.g))
    if isinstance(x, int): return ~x
    if isinstance(x, Unknown): return x
    return V.u('invert', x)


def isarrlike(x):
    return isinstance(x, (Arr, Comp, Flat)) or (isinstance(x, (list, tuple)) and False)


def same(a, b):
    if a is b: return True
    try:
        return a.akey() == b.akey()
    except Unsupported:
        return False


def scalardtype(items):
    k = 'b'
    for x in items:
        if isinstance(x, (bool, np.bool_, B)): t = 'b'
        elif isinstance(x, (int, np.integer)): t = 'i'
        elif isinstance(x, S): t = 'i' if V.ALG.isintpoly(x.p) else ('c' if V.hascomplex(x.p) else 'f')
        elif isinstance(x, complex): t = 'c'
        elif isinstance(x, (float, Fraction, np.floating)): t = 'f'
        else: t = 'f'
        if 'bifc'.index(t) > 'bifc'.index(k): k = t
    if not items: return np.dtype('f8')
    return np.dtype({'b': '?', 'i': 'i8', 'f': 'f8', 'c': 'c16'}[k])


def castto(dt, x):
    if isinstance(x, Unknown) or isinstance(x, Gate) or not isnum(x): return x
    k = dt.kind
    if k in 'iu':
        if isinstance(x, (bool, np.bool_, int, np.integer)): return int(x)
        p = num(x)
        if V.ALG.isintpoly(p): return mk(p)
        return mk(V.ALG.trunc(p))
    if k == 'b':
        if isinstance(x, (bool, B)): return x
        return mkb(V.truth(x))
    if k == 'f':
        if isinstance(x, S) and V.hascomplex(x.p): return mk(V.parts(x)[0])
        if isinstance(x, B): return mk(num(x))
        if isinstance(x, bool): return int(x)
    if k == 'c' and isinstance(x, B): return mk(num(x))
    return x


def todtype(x):
    if isinstance(x, np.dtype): return x
    if isinstance(x, str): return np.dtype(x)
    if x is int: return np.dtype('i8')
    if x is float: return np.dtype('f8')
    if x is bool: return np.dtype('?')
    if x is complex: return np.dtype('c16')
    if isinstance(x, (list, tuple)):
        return np.dtype([tuple(y) if isinstance(y, list) else y for y in x] if isinstance(x, list) else x)
    if isinstance(x, type) and issubclass(x, np.generic): return np.dtype(x)
    if isinstance(x, Native) and hasattr(x, 'dtype'): return np.dtype(x.dtype)
    if isinstance(x, Native) and x.name in ('int', 'float', 'bool', 'complex'):
        return np.dtype(dict(int='i8', float='f8', bool='?', complex='c16')[x.name])
    raise Unsupported('dtype %r' % (x,))


from pynumpy import *          # noqa: transfer functions of numpy and the builtins
