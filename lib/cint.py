"""Guarded dataflow over LLVM IR: one pass per function in topological order of
the control flow graph, values merged with gating functions at the joins."""
import math
from fractions import Fraction

import networkx as nx

from cfront import PTR, Module
from cval import Alg, Num, Bool, Ptr, UNDEF, Unsupported


class Loop(object):
    def __init__(self, header, items, blocks):
        self.header = header
        self.items = items
        self.blocks = blocks


def succs(block):
    i = block[-1]
    if i.op == 'br':
        c, a, b = i.a
        return [a] if c is None else [a, b]
    if i.op == 'switch':
        v, d, cases = i.a
        return [d] + [b for _, b in cases]
    return []


def schedule(func):
    """nested topological order of the blocks"""
    G = nx.DiGraph()
    for b in func.order:
        G.add_node(b)
        for s in succs(func.blocks[b]):
            G.add_edge(b, s)
    live = nx.descendants(G, func.order[0]) | {func.order[0]}
    G = G.subgraph(live)

    def build(nodes, entry):
        H = nx.DiGraph(G.subgraph(nodes))
        if entry is not None:
            H.remove_edges_from([(u, entry) for u in list(H.predecessors(entry))])
        cond = nx.condensation(H)
        items = []
        for c in nx.topological_sort(cond):
            ms = cond.nodes[c]['members']
            if len(ms) == 1:
                (b,) = ms
                if not H.has_edge(b, b):
                    items.append(b)
                    continue
            heads = [b for b in ms if b == func.order[0] or any(p not in ms for p in G.predecessors(b))]
            if len(heads) != 1:
                raise Unsupported('irreducible loop in %s' % func.name)
            items.append(Loop(heads[0], build(ms, heads[0]), frozenset(ms)))
        return items
    return build(set(G.nodes), None)


class Undefined(Unsupported):
    """the code uses what has not been given a value"""


class Obj(object):
    def __init__(self, name, kind):
        self.name = name
        self.kind = kind        # 'local', 'canvas', 'global', 'sym'
        self.cells = {}         # byte offset -> value
        self.zero = []          # ranges set to zero


class State(object):
    def __init__(self):
        self.pend = {}
        self.phi = {}


class Access(object):
    def __init__(self, kind, obj, off, ty, guard, instr, fn, stack):
        self.kind = kind
        self.obj = obj
        self.off = off
        self.ty = ty
        self.guard = guard
        self.file, self.line = instr.file, instr.line
        self.fn = fn
        self.stack = stack

    def where(self):
        return '%s:%s (%s)' % (self.file, self.line, self.fn.lstrip('@'))


class Interp(object):
    MAXITER = 4000
    MAXDEPTH = 24

    def __init__(self, mod, alg=None):
        self.mod = mod
        self.alg = alg or Alg()
        self.dd = self.alg.dd
        self.objs = {}
        self.sched = {}
        self.n = 0
        self.accesses = []
        self.nstores = 0
        self.stack = []
        self.ncalls = 0
        self.calls = []
        self.externals = {}
        self.atexit = []

    # ---- objects
    def newobj(self, name, kind='local'):
        self.n += 1
        k = '%s#%d' % (name, self.n)
        self.objs[k] = Obj(k, kind)
        return k

    def ptr(self, obj, off=None):
        return Ptr([(self.dd.T, obj, off if off is not None else {})])

    def globobj(self, name):
        k = 'g:' + name
        if k in self.objs: return k
        o = Obj(k, 'global')
        self.objs[k] = o
        if name in self.mod.globals:
            ty, init, const = self.mod.globals[name]
            o.ty = ty
            o.big = ty.kind == 'array' and ty.n > 64
            if init is not None and not o.big: self.initcells(o, 0, ty, init)
        return k

    def initcells(self, o, off, ty, init):
        k = init[0]
        if k == 'arr':
            s = self.mod.size(ty.elt)
            for j, v in enumerate(init[1]):
                self.initcells(o, off + j * s, ty.elt, v)
        elif k == 'struct':
            for j, (t, v) in enumerate(init[1]):
                self.initcells(o, off + self.mod.offset(ty, j), t, v)
        elif k == 'zero':
            o.zero.append((off, off + self.mod.size(ty)))
        elif k in ('c', 'g', 'null', 'gep'):
            o.cells[off] = self.operand(init, ty, {})
        elif k == 'str':
            pass

    # ---- values
    def merge(self, g, a, b):
        """a where g, else b"""
        dd = self.dd
        if a is UNDEF: return b
        if b is UNDEF: return a
        if g == dd.T: return a
        if g == dd.F: return b
        if isinstance(a, Bool) and isinstance(b, Num): a = self.tonum(a)
        if isinstance(b, Bool) and isinstance(a, Num): b = self.tonum(b)
        if isinstance(a, Num) and isinstance(b, Num):
            return Num(self.alg.ite(g, a.p, b.p))
        if isinstance(a, Bool) and isinstance(b, Bool):
            return Bool(dd.ITE(g, a.g, b.g))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            alts = []
            ng = dd.NOT(g)
            for h, o, f in a.alts: alts.append((dd.AND(g, h), o, f))
            for h, o, f in b.alts: alts.append((dd.AND(ng, h), o, f))
            return Ptr(self.normalts(alts))
        raise Unsupported('merge of different kinds')

    def normalts(self, alts):
        dd, alg = self.dd, self.alg
        byobj = {}
        for h, o, f in alts:
            h = alg.simp(h)
            if h == dd.F: continue
            byobj.setdefault(o, []).append((h, f))
        out = []
        for o, l in byobj.items():
            h, f = l[0]
            for h2, f2 in l[1:]:
                f = alg.ite(h2, f2, f)
                h = dd.OR(h, h2)
            out.append((h, o, f))
        return out

    def tonum(self, v):
        if isinstance(v, Num): return v
        if isinstance(v, Bool): return Num(self.alg.guard(v.g, self.alg.C(1)))
        if v is UNDEF: return UNDEF
        raise Unsupported('number expected')

    def num(self, v):
        if v is UNDEF: raise Unsupported('use of an undefined value')
        return self.tonum(v).p

    def boo(self, v):
        if isinstance(v, Bool): return v.g
        if isinstance(v, Num):
            p = self.alg.psimp(v.p)
            return self.dd.NOT(self.eq0(p))
        raise Unsupported('truth value of %r' % (v,))

    def eq0(self, p):
        alg, dd = self.alg, self.dd
        r = dd.F
        for g, q in alg.split(p):
            c = alg.const(q)
            if c is not None:
                h = dd.T if c == 0 else dd.F
            elif alg.isintpoly(q):
                h = dd.AND(alg.ge0i(q), alg.ge0i(alg.neg(q)))
            else:
                h = dd.F          # a measure zero set
            r = dd.OR(r, dd.AND(g, h))
        return r

    def operand(self, o, ty, env):
        k = o[0]
        if k == 'v': return env[o[1]]
        if k == 'c':
            if ty is not None and ty.kind == 'int' and ty.bits == 1:
                return Bool(self.dd.T if o[1] != 0 else self.dd.F)
            return Num(self.alg.C(o[1]))
        if k == 'g':
            if o[1] in self.mod._bodies or o[1] in self.mod.declared:
                return self.ptr('fn:' + o[1])
            return self.ptr(self.globobj(o[1]))
        if k == 'null': return self.ptr('null')
        if k == 'undef': return UNDEF
        if k == 'gep':
            return self.gep(o[1], self.operand(o[2], PTR, env), [(t, self.operand(x, t, env)) for t, x in o[3]])
        if k == 'zero':
            if ty is not None and ty.kind == 'ptr': return self.ptr('null')
            return Num({})
        raise Unsupported('operand %s' % k)

    def gep(self, sty, base, idx):
        off = {}
        alg = self.alg
        ty = sty
        for j, (ity, v) in enumerate(idx):
            p = self.num(v)
            if j == 0:
                off = alg.add(off, alg.scale(p, self.mod.size(ty)))
                continue
            if ty.kind == 'struct' and ty.name in self.mod.structs: ty = self.mod.structs[ty.name]
            if ty.kind == 'array':
                off = alg.add(off, alg.scale(p, self.mod.size(ty.elt)))
                ty = ty.elt
            elif ty.kind == 'struct':
                c = alg.const(p)
                off = alg.add(off, alg.C(self.mod.offset(ty, int(c))))
                ty = ty.fields[int(c)]
            else:
                raise Unsupported('gep into %r' % ty)
        if base is UNDEF: raise Unsupported('address of an undefined pointer')
        if not isinstance(base, Ptr): raise Unsupported('gep on a number')
        return Ptr([(g, o, alg.add(f, off)) for g, o, f in base.alts])

    # ---- memory
    def load(self, p, ty, g, ins, fn):
        dd, alg = self.dd, self.alg
        if not isinstance(p, Ptr): raise Unsupported('load through a number')
        val = UNDEF
        for h, o, f in p.alts:
            hg = alg.simp(dd.AND(h, g))
            if hg == dd.F: continue
            val = self.merge(h, self.load1(o, f, ty, hg, ins, fn), val)
        return val

    def load1(self, o, off, ty, g, ins, fn):
        dd, alg = self.dd, self.alg
        if o == 'null':
            self.accesses.append(Access('null', o, off, ty, g, ins, fn, tuple(self.stack)))
            return UNDEF
        obj = self.objs.get(o)
        if obj is None: raise Unsupported('load from %s' % o)
        big = obj.kind == 'canvas' or getattr(obj, 'big', False)
        if big:
            off = alg.psimp(alg.restrict(off, g))
            self.accesses.append(Access('load', o, off, ty, g, ins, fn, tuple(self.stack)))
            out = {}
            for h, q in alg.split(off, g if False else None):
                if obj.kind == 'canvas':
                    a = alg.atom(('M', alg.key(q), repr(ty), self.nstores))
                else:
                    a = alg.atom(('tab', obj.name, alg.key(q)))
                out = alg.add(out, alg.guard(h, alg.A(a)))
            return Num(out)
        val = UNDEF
        for h, q in alg.split(off):
            if alg.simp(dd.AND(h, g)) == dd.F: continue
            c = alg.const(q)
            if c is None: raise Unsupported('load at a variable offset of %s at %s:%s' % (o, ins.file, ins.line))
            val = self.merge(h, self.cell(obj, int(c), ty), val)
        return val

    def cell(self, obj, c, ty):
        v = obj.cells.get(c)
        if v is None:
            for a, b in obj.zero:
                if a <= c < b:
                    if ty.kind == 'ptr': return self.ptr('null')
                    return Num({})
            if obj.kind == 'sym':
                return obj.fresh(c, ty)
            return UNDEF
        return v

    def store(self, p, v, ty, g, ins, fn):
        dd, alg = self.dd, self.alg
        if not isinstance(p, Ptr): raise Unsupported('store through a number')
        for h, o, off in p.alts:
            hg = alg.simp(dd.AND(h, g))
            if hg == dd.F: continue
            if o == 'null':
                self.accesses.append(Access('null', o, off, ty, hg, ins, fn, tuple(self.stack)))
                continue
            obj = self.objs.get(o)
            if obj is None: raise Unsupported('store to %s' % o)
            if obj.kind == 'canvas':
                off = alg.psimp(alg.restrict(off, hg))
                a = Access('store', o, off, ty, hg, ins, fn, tuple(self.stack))
                a.val = v
                a.version = self.nstores
                self.nstores += 1
                self.accesses.append(a)
                continue
            if getattr(obj, 'big', False): raise Unsupported('store to a table')
            for k, q in alg.split(off):
                kg = alg.simp(dd.AND(k, hg))
                if kg == dd.F: continue
                c = alg.const(q)
                if c is None: raise Unsupported('store at a variable offset of %s' % o)
                c = int(c)
                old = self.cell(obj, c, ty)
                obj.cells[c] = self.merge(kg, v, old)

    # ---- functions
    def call(self, name, args, g=None):
        if g is None: g = self.dd.T
        f = self.mod.func(name)
        if f is None: raise Unsupported('no body of %s' % name)
        if len(self.stack) > self.MAXDEPTH: raise Unsupported('recursion')
        if name not in self.sched: self.sched[name] = schedule(f)
        env = {p: a for (t, p), a in zip(f.params, args)}
        st = State()
        st.pend[f.order[0]] = g
        st.ret = UNDEF
        st.fn = f
        self.stack.append(name)
        self.region(self.sched[name], st, env)
        self.stack.pop()
        return st.ret

    def region(self, items, st, env):
        for it in items:
            if isinstance(it, Loop):
                self.loop(it, st, env)
            else:
                g = st.pend.pop(it, self.dd.F)
                if g == self.dd.F: continue
                self.block(it, g, st, env)

    SUMOK = {'add', 'sub', 'mul', 'icmp', 'load', 'store', 'phi', 'br', 'gep', 'sext', 'zext', 'trunc', 'sitofp', 'fptosi', 'and', 'or', 'xor', 'select',
             'fcmp', 'fadd', 'fsub', 'fmul'}

    def sumable(self, L, f):
        if len(L.blocks) > 5: return False
        for b in L.blocks:
            for i in f.blocks[b]:
                if i.op not in self.SUMOK: return False
        return not any(isinstance(x, Loop) for x in L.items)

    def loop(self, L, st, env):
        dd = self.dd
        n = 0
        cand = self.sumable(L, st.fn)
        done = False
        while True:
            g = st.pend.get(L.header, dd.F)
            if g == dd.F: return
            n += 1
            if n > self.MAXITER: raise Unsupported('loop without a bound in %s' % st.fn.name)
            if cand and not done:
                snap = self.snapshot(st, env)
                enter = dict(st.phi.get(L.header, {}))
            self.region(L.items, st, env)
            if L.header not in st.pend: return
            b = self.alg.simp(st.pend[L.header])
            if b == dd.F:
                st.pend.pop(L.header)
                st.phi.pop(L.header, None)
                return
            st.pend[L.header] = b
            if b != g and b != self.alg.simp(g):
                if not cand or done:
                    if n > 40: raise Unsupported('loop with a symbolic bound in %s' % st.fn.name)
                    continue
                r = self.summarise(L, st, g, b, enter, snap)
                if r is None:
                    if n > 40: raise Unsupported('loop with a symbolic bound in %s' % st.fn.name)
                    continue
                self.restore(snap, st, env)
                kind, where, val = r
                if kind == 'phi':
                    st.phi.setdefault(L.header, {})[where] = val
                else:
                    self.objs[where[0]].cells[where[1]] = val
                done = True

    def snapshot(self, st, env):
        return (dict(st.pend), {k: dict(v) for k, v in st.phi.items()}, st.ret,
                {k: dict(o.cells) for k, o in self.objs.items() if o.kind == 'local'},
                len(self.accesses), self.nstores, dict(env))

    def restore(self, s, st, env):
        st.pend, st.phi, st.ret = dict(s[0]), {k: dict(v) for k, v in s[1].items()}, s[2]
        for k, o in self.objs.items():
            if o.kind == 'local' and k in s[3]: o.cells = dict(s[3][k])
        del self.accesses[s[4]:]
        self.nstores = s[5]
        env.clear()
        env.update(s[6])

    def same(self, a, b):
        if a is b: return True
        if isinstance(a, Num) and isinstance(b, Num): return a.p == b.p
        if isinstance(a, Bool) and isinstance(b, Bool): return a.g == b.g
        if isinstance(a, Ptr) and isinstance(b, Ptr): return a.alts == b.alts
        return False

    def summarise(self, L, st, g, b, enter, snap):
        alg, dd = self.alg, self.dd
        if self.nstores != snap[5]: return None
        changed = []
        for k, v in st.phi.get(L.header, {}).items():
            o = enter.get(k)
            if o is None or not self.same(o, v): changed.append(('phi', k, o, v))
        for k, o in self.objs.items():
            if o.kind != 'local': continue
            old = snap[3].get(k, {})
            for c, v in o.cells.items():
                if c not in old:
                    return None
                if not self.same(old[c], v): changed.append(('mem', (k, c), old[c], v))
        if len(changed) != 1: return None
        kind, where, o, v = changed[0]
        if not isinstance(o, Num) or not isinstance(v, Num): return None
        d = alg.psimp(alg.restrict(alg.sub(v.p, o.p), b))
        if alg.isgated(d): return None
        # +-P
        for sgn in (1, -1):
            P = alg.scale(d, sgn)
            if self.positive(P): break
        else:
            return None
        o = o.p
        for c in (0, 1, -1, 2, -2, 3, -3):
            oc = alg.sub(o, alg.C(c))
            if sgn == -1:      # t -= P while t - c >= P
                cond = alg.ge0i(alg.sub(oc, P))
            else:              # t += P while t - c < 0
                cond = dd.NOT(alg.ge0i(oc))
            if alg.simp(dd.AND(g, cond)) == b:
                r = alg.add(alg.halfwrap(oc, P, 'whi' if sgn == -1 else 'wlo'), alg.C(c))
                return kind, where, Num(alg.ite(g, r, o))
        return None

    def positive(self, P):
        alg = self.alg
        c = alg.const(P)
        if c is not None: return c > 0
        if len(P) == 1:
            (m, c), = P.items()
            return c == self.dd.T and len(m) == 1 and m[0][1] == 1 and m[0][0] in alg.positive
        return False

    def edge(self, u, v, g, st, env):
        dd = self.dd
        if g == dd.F: return
        st.pend[v] = dd.OR(st.pend.get(v, dd.F), g)
        acc = st.phi.setdefault(v, {})
        new = {}
        for i in st.fn.blocks[v]:
            if i.op != 'phi': break
            for o, blk in i.a:
                if blk == u:
                    new[i.dest] = self.operand(o, i.ty, env)
                    break
        for d, val in new.items():
            acc[d] = self.merge(g, val, acc[d]) if d in acc else val

    def block(self, b, g, st, env):
        dd, alg = self.dd, self.alg
        f = st.fn
        phis = st.phi.pop(b, {})
        env.update(phis)
        fn = f.name
        for i in f.blocks[b]:
            op = i.op
            if op == 'phi': continue
            if op == 'br':
                c, x, y = i.a
                if c is None:
                    self.edge(b, x, g, st, env)
                else:
                    cv = self.operand(c, None, env)
                    if cv is UNDEF: raise Unsupported('branch on an undefined value at %s:%s' % (i.file, i.line))
                    cg = alg.simp(self.boo(cv))
                    self.edge(b, x, alg.simp(dd.AND(g, cg)), st, env)
                    self.edge(b, y, alg.simp(dd.AND(g, dd.NOT(cg))), st, env)
                return
            if op == 'switch':
                v, d, cases = i.a
                p = self.num(self.operand(v, i.ty, env))
                rest = g
                for c, blk in cases:
                    e = self.eq0(alg.sub(p, alg.C(c[1])))
                    self.edge(b, blk, alg.simp(dd.AND(rest, e)), st, env)
                    rest = alg.simp(dd.AND(rest, dd.NOT(e)))
                self.edge(b, d, rest, st, env)
                return
            if op == 'ret':
                if i.a is not None:
                    st.ret = self.merge(g, self.operand(i.a, i.ty, env), st.ret)
                return
            if op == 'unreachable': return
            v = self.instr(i, g, env, fn)
            if i.dest is not None: env[i.dest] = v

    PASS = {'sext', 'sitofp', 'fpext', 'fptrunc', 'freeze', 'bitcast', 'uitofp', 'trunc', 'zext'}

    def instr(self, i, g, env, fn):
        dd, alg = self.dd, self.alg
        op = i.op
        O = lambda o, t: self.operand(o, t, env)
        if op in self.PASS:
            t, v = i.a if op != 'freeze' else (i.ty, i.a)
            v = O(v, t)
            if isinstance(v, Bool):
                if op == 'trunc': return v
                if op == 'sext': return Num(alg.neg(self.tonum(v).p))
                return self.tonum(v)
            if op == 'trunc' and i.ty.kind == 'int' and i.ty.bits == 1:
                return Bool(self.boo(v))
            return v
        if op in ('fptosi', 'fptoui'):
            v = O(i.a[1], i.a[0])
            if v is UNDEF: return v
            return Num(alg.trunc(self.num(v)))
        if op in ('ptrtoint', 'inttoptr'):
            v = O(i.a[1], i.a[0])
            if isinstance(v, Ptr) or v is UNDEF: return v
            raise Unsupported('pointer arithmetic')
        if op in ('add', 'fadd', 'sub', 'fsub', 'mul', 'fmul', 'fdiv', 'sdiv', 'udiv', 'srem', 'urem', 'frem', 'shl', 'ashr', 'lshr'):
            a, b = O(i.a[0], i.ty), O(i.a[1], i.ty)
            if a is UNDEF or b is UNDEF: return UNDEF
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                return self.ptrarith(op, a, b)
            a, b = self.num(a), self.num(b)
            if op in ('add', 'fadd'): return Num(alg.rw(alg.add(a, b)))
            if op in ('sub', 'fsub'): return Num(alg.rw(alg.sub(a, b)))
            if op in ('mul', 'fmul'): return Num(alg.mul(a, b))
            if op == 'fdiv':
                return Num(self.div(a, b))
            c = alg.const(b)
            if op == 'shl' and c is not None: return Num(alg.scale(a, 2 ** int(c)))
            if op in ('ashr', 'lshr') and c is not None: return Num(alg.floor(alg.scale(a, Fraction(1, 2 ** int(c)))))
            if op in ('sdiv', 'udiv'):
                return Num(alg.trunc(self.div(a, b)))
            if op in ('srem', 'urem', 'frem'):
                return Num(alg.srem(a, b))
            raise Unsupported(op)
        if op == 'fneg':
            v = O(i.a, i.ty)
            return v if v is UNDEF else Num(alg.neg(self.num(v)))
        if op in ('and', 'or', 'xor'):
            a, b = O(i.a[0], i.ty), O(i.a[1], i.ty)
            if i.ty.bits == 1:
                a, b = self.boo(a), self.boo(b)
                if op == 'and': return Bool(dd.AND(a, b))
                if op == 'or': return Bool(dd.OR(a, b))
                return Bool(dd.ITE(a, dd.NOT(b), b))
            a, b = self.num(a), self.num(b)
            x, y = alg.const(a), alg.const(b)
            if x is not None and y is not None:
                x, y = int(x), int(y)
                return Num(alg.C(x & y if op == 'and' else x | y if op == 'or' else x ^ y))
            # gated 0/1 values
            if self.is01(a) and self.is01(b):
                u, w = self.boo(Num(a)), self.boo(Num(b))
                r = dd.AND(u, w) if op == 'and' else dd.OR(u, w) if op == 'or' else dd.ITE(u, dd.NOT(w), w)
                return self.tonum(Bool(r))
            raise Unsupported('bit operation')
        if op == 'icmp':
            pred, a, b = i.a
            a, b = O(a, i.ty), O(b, i.ty)
            if a is UNDEF or b is UNDEF: return UNDEF
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                return self.ptrcmp(pred, a, b)
            a, b = self.num(a), self.num(b)
            d = alg.sub(a, b)
            if pred in ('eq', 'ne'):
                r = self.eq0(d)
                return Bool(r if pred == 'eq' else dd.NOT(r))
            k = pred[1:]
            one = alg.C(1)
            if k == 'ge': return Bool(alg.ge0i(d))
            if k == 'gt': return Bool(alg.ge0i(alg.sub(d, one)))
            if k == 'lt': return Bool(dd.NOT(alg.ge0i(d)))
            return Bool(dd.NOT(alg.ge0i(alg.sub(d, one))))
        if op == 'fcmp':
            pred, a, b = i.a
            a, b = O(a, i.ty), O(b, i.ty)
            if a is UNDEF or b is UNDEF: return UNDEF
            a, b = self.num(a), self.num(b)
            d = alg.psimp(alg.sub(a, b))
            k = pred[1:]
            if pred in ('true', 'ord'): return Bool(dd.T)
            if pred in ('false', 'uno'): return Bool(dd.F)
            if k in ('eq', 'ne'):
                r = self.eq0(d)
                return Bool(r if k == 'eq' else dd.NOT(r))
            if k in ('ge', 'gt'): return Bool(alg.ge0r(d, k == 'gt'))
            return Bool(dd.NOT(alg.ge0r(d, k == 'le')))
        if op == 'select':
            c, a, b = i.a
            c = O(c, None)
            a, b = O(a, i.ty), O(b, i.ty)
            return self.merge(alg.simp(self.boo(c)), a, b)
        if op == 'alloca':
            return self.ptr(self.newobj(i.dest))
        if op == 'load':
            return self.load(O(i.a, PTR), i.ty, g, i, fn)
        if op == 'store':
            self.store(O(i.a[1], PTR), O(i.a[0], i.ty), i.ty, g, i, fn)
            return None
        if op == 'gep':
            base, idx = i.a
            return self.gep(i.ty, O(base, PTR), [(t, O(x, t)) for t, x in idx])
        if op == 'call':
            return self.docall(i, g, env, fn)
        raise Unsupported('instruction %s' % op)

    def is01(self, p):
        for m, c in p.items():
            if m != (): return False
            for _, t in self.alg.paths(c):
                if t not in (0, 1): return False
        return True

    def div(self, a, b):
        alg = self.alg
        if not alg.isgated(b):
            if not b: raise Unsupported('division by zero')
            return alg.mul(a, alg.inv(b))
        out = {}
        for g, q in alg.split(b):
            if not q: continue
            out = alg.add(out, alg.guard(g, alg.mul(a, alg.inv(q))))
        return out

    def ptrarith(self, op, a, b):
        alg = self.alg
        if op == 'add' and isinstance(a, Ptr) and isinstance(b, Num):
            return Ptr([(g, o, alg.add(f, b.p)) for g, o, f in a.alts])
        if op == 'add' and isinstance(b, Ptr) and isinstance(a, Num):
            return Ptr([(g, o, alg.add(f, a.p)) for g, o, f in b.alts])
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and len(a.alts) == 1 and len(b.alts) == 1 and a.alts[0][1] == b.alts[0][1]:
            return Num(alg.sub(a.alts[0][2], b.alts[0][2]))
        raise Unsupported('pointer arithmetic')

    def ptrcmp(self, pred, a, b):
        dd, alg = self.dd, self.alg
        if not (isinstance(a, Ptr) and isinstance(b, Ptr)) or pred not in ('eq', 'ne'):
            raise Unsupported('pointer comparison')
        r = dd.F
        for g, o, f in a.alts:
            for h, p, q in b.alts:
                if o == p:
                    r = dd.OR(r, dd.AND(g, h, self.eq0(alg.sub(f, q))))
        return Bool(r if pred == 'eq' else dd.NOT(r))

    MATH = {'floor': 'floor', 'floorf': 'floor', 'llvm.floor.f64': 'floor', 'llvm.floor.f32': 'floor',
            'ceil': 'ceil', 'llvm.ceil.f64': 'ceil',
            'rint': 'rint', 'llvm.rint.f64': 'rint', 'round': 'rint', 'llvm.round.f64': 'rint', 'nearbyint': 'rint', 'llvm.nearbyint.f64': 'rint',
            'lrint': 'rint', 'lround': 'rint', 'llvm.lrint.i64.f64': 'rint', 'llvm.lround.i64.f64': 'rint',
            'trunc': 'trunc', 'llvm.trunc.f64': 'trunc',
            'fabs': 'fabs', 'llvm.fabs.f64': 'fabs', 'fabsf': 'fabs', 'llvm.fabs.f32': 'fabs', 'abs': 'fabs', 'labs': 'fabs',
            'fmin': 'min', 'fmax': 'max', 'llvm.minnum.f64': 'min', 'llvm.maxnum.f64': 'max',
            'fmod': 'fmod'}

    def docall(self, i, g, env, fn):
        dd, alg = self.dd, self.alg
        callee, args = i.a
        vals = []
        for t, o in args:
            try:
                vals.append(self.operand(o, t, env) if o[0] != 'meta' else None)
            except KeyError:
                raise
        if callee[0] == 'g':
            targets = [(dd.T, callee[1])]
        else:
            p = env[callee[1]]
            if p is UNDEF: raise Undefined('call of a function pointer which is never set, in %s' % self.stack[-1].lstrip('@'))
            if not isinstance(p, Ptr): raise Unsupported('call of an undefined pointer')
            targets = []
            for h, o, f in p.alts:
                if alg.simp(dd.AND(h, g)) == dd.F: continue
                if o == 'null':
                    self.accesses.append(Access('nullcall', o, f, i.ty, dd.AND(h, g), i, fn, tuple(self.stack)))
                    continue
                if not o.startswith('fn:'): raise Unsupported('call of %s' % o)
                targets.append((h, o[3:]))
        val = UNDEF
        for h, name in targets:
            hg = alg.simp(dd.AND(h, g))
            if hg == dd.F: continue
            r = self.call1(name, vals, hg, i, fn)
            if r is not None: val = self.merge(h, r, val)
        return val if val is not UNDEF or i.dest is None else val

    def call1(self, name, vals, g, i, fn):
        dd, alg = self.dd, self.alg
        n = name.lstrip('@')
        if n in self.externals:
            return self.externals[n](self, vals, g, i)
        if name in self.mod._bodies:
            self.ncalls += 1
            self.calls.append((name, i.file, i.line))
            return self.call(name, vals, g)
        if n.startswith('llvm.lifetime') or n.startswith('llvm.stack') or n.startswith('llvm.dbg') or n.startswith('llvm.assume'):
            return UNDEF
        if n.startswith('llvm.expect'): return vals[0]
        if n.startswith('llvm.memset'):
            return self.memset(vals, g)
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
            return self.memcpy(vals, g)
        if n.startswith('llvm.fmuladd') or n.startswith('llvm.fma') or n == 'fma':
            if any(v is UNDEF for v in vals[:3]): return UNDEF
            return Num(alg.rw(alg.add(alg.mul(self.num(vals[0]), self.num(vals[1])), self.num(vals[2]))))
        if n.startswith('llvm.smax') or n.startswith('llvm.smin'):
            a, b = self.num(vals[0]), self.num(vals[1])
            c = alg.ge0i(alg.sub(a, b))
            return Num(alg.ite(c, a, b) if 'max' in n else alg.ite(c, b, a))
        if n.startswith('llvm.abs'):
            a = self.num(vals[0])
            return Num(alg.ite(alg.ge0i(a), a, alg.neg(a)))
        k = self.MATH.get(n)
        if k:
            if any(v is UNDEF for v in vals): return UNDEF
            a = self.num(vals[0])
            if k == 'floor': return Num(alg.floor(a))
            if k == 'ceil': return Num(alg.neg(alg.floor(alg.neg(a))))
            if k == 'rint': return Num(alg.floor(alg.add(a, alg.C(Fraction(1, 2)))))
            if k == 'trunc': return Num(alg.trunc(a))
            if k == 'fabs': return Num(alg.psimp(alg.fabs(alg.psimp(a))))
            if k == 'fmod': return Num(alg.srem(a, self.num(vals[1])))
            b = self.num(vals[1])
            c = alg.ge0r(alg.sub(a, b))
            return Num(alg.ite(c, a, b) if k == 'max' else alg.ite(c, b, a))
        if n == 'pow' or n.startswith('llvm.pow'):
            e = alg.const(self.num(vals[1]))
            if e is not None and e.denominator == 1 and 0 <= e <= 8:
                r = alg.C(1)
                for _ in range(int(e)): r = alg.mul(r, self.num(vals[0]))
                return Num(r)
        if n in ('sin', 'cos', 'exp', 'log', 'sqrt', 'pow', 'llvm.sqrt.f64', 'tan', 'atan2', 'llvm.sin.f64', 'llvm.cos.f64', 'llvm.exp.f64', 'llvm.log.f64', 'llvm.pow.f64'):
            if any(v is UNDEF for v in vals): return UNDEF
            return self.pure(n.replace('llvm.', '').split('.')[0], [self.num(v) for v in vals])
        raise Unsupported('call of %s' % n)

    def pure(self, n, ps):
        alg = self.alg
        if len(ps) == 1:
            def f(q):
                return alg.A(alg.atom(('fn', n, alg.key(q))))
            return Num(alg.distribute(alg.rw(ps[0]), f))
        if any(alg.isgated(p) for p in ps): raise Unsupported('gated %s' % n)
        return Num(alg.A(alg.atom(('fn', n) + tuple(alg.key(p) for p in ps))))

    def memset(self, vals, g):
        alg = self.alg
        c, n = alg.const(self.num(vals[1])), alg.const(self.num(vals[2]))
        p = vals[0]
        if c != 0 or n is None or len(p.alts) != 1 or alg.const(p.alts[0][2]) is None:
            raise Unsupported('memset')
        o = self.objs[p.alts[0][1]]
        a = int(alg.const(p.alts[0][2]))
        for k in list(o.cells):
            if a <= k < a + n:
                o.cells[k] = self.merge(g, Num({}), o.cells[k]) if not isinstance(o.cells[k], Ptr) else self.ptr('null')
        o.zero.append((a, a + int(n)))
        return UNDEF

    def memcpy(self, vals, g):
        alg = self.alg
        n = alg.const(self.num(vals[2]))
        d, s = vals[0], vals[1]
        if n is None or len(d.alts) != 1 or len(s.alts) != 1: raise Unsupported('memcpy')
        do, so = self.objs[d.alts[0][1]], self.objs[s.alts[0][1]]
        da, sa = alg.const(d.alts[0][2]), alg.const(s.alts[0][2])
        if da is None or sa is None or do.kind == 'canvas' or so.kind in ('canvas', 'sym') or g != self.dd.T: raise Unsupported('memcpy')
        da, sa, n = int(da), int(sa), int(n)
        for k in list(do.cells):
            if da <= k < da + n: del do.cells[k]
        for k, v in so.cells.items():
            if sa <= k < sa + n: do.cells[da + k - sa] = v
        for a, b in so.zero:
            lo, hi = max(a, sa), min(b, sa + n)
            if lo < hi: do.zero.append((da + lo - sa, da + hi - sa))
        return UNDEF
