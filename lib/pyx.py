"""Cython sources as Python syntax trees.

Cython's own parser gives the tree; declarations are dropped except for C
arrays and structs, casts and address-of are transparent.
"""
import ast
import re

SCALARS = set('''char short int long float double signed unsigned size_t ptrdiff_t ssize_t Py_ssize_t bint object void
int8_t int16_t int32_t int64_t uint8_t uint16_t uint32_t uint64_t intp_t uintp_t float32_t float64_t npy_intp list dict tuple str bytes set'''.split())


class PyxError(Exception):
    pass


def parse(code, name='m'):
    from Cython.Compiler.TreeFragment import parse_from_strings, StringParseContext
    from Cython.Compiler import Errors
    Errors.init_thread()
    t = parse_from_strings(name, code, context=StringParseContext(name))
    m = ast.Module(body=Conv().block(t.body), type_ignores=[])
    ast.fix_missing_locations(m)
    return m


def pos(n, a):
    p = getattr(n, 'pos', None)
    if p:
        a.lineno = a.end_lineno = p[1]
        a.col_offset = a.end_col_offset = p[2]
    return a


class Conv(object):
    def __init__(self):
        self.enums = []
        self.loopvars = 0

    # ---- statements
    def block(self, n):
        out = []
        self.stat(n, out)
        return out or [ast.Pass(lineno=1, col_offset=0)]

    def stat(self, n, out):
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None: raise PyxError('statement %s' % type(n).__name__)
        k = len(out)
        m(n, out)
        for s in out[k:]:
            if not hasattr(s, 'lineno'): pos(n, s)

    def s_StatListNode(self, n, out):
        for s in n.stats: self.stat(s, out)

    def s_PassStatNode(self, n, out): out.append(ast.Pass())
    def s_CImportStatNode(self, n, out): pass
    def s_FromCImportStatNode(self, n, out): pass
    def s_CTypeDefNode(self, n, out): pass
    def s_FusedTypeNode(self, n, out): pass
    def s_CStructOrUnionDefNode(self, n, out): pass
    def s_GlobalNode(self, n, out): out.append(ast.Global(names=list(n.names)))
    def s_NonlocalNode(self, n, out): out.append(ast.Nonlocal(names=list(n.names)))

    def s_CEnumDefNode(self, n, out):
        last = None
        for k, i in enumerate(n.items):
            out.append(ast.Assign(targets=[ast.Name(id=i.name, ctx=ast.Store())],
                                  value=ast.Call(func=ast.Name(id='__cenum__', ctx=ast.Load()), args=[ast.Constant(value=i.name)], keywords=[])))

    def s_CDefExternNode(self, n, out):
        self.extern = True
        self.stat(n.body, out)
        self.extern = False

    def typename(self, t):
        return getattr(t, 'name', None)

    def s_CVarDefNode(self, n, out):
        ty = self.typename(n.base_type)
        for d in n.declarators:
            dims = False
            default = getattr(d, 'default', None)
            ptr = False
            while type(d).__name__ != 'CNameDeclaratorNode':
                k = type(d).__name__
                if k == 'CArrayDeclaratorNode': dims = True
                if k == 'CPtrDeclaratorNode': ptr = True
                if k == 'CFuncDeclaratorNode':
                    d = None
                    break
                d = d.base
                if default is None: default = getattr(d, 'default', None)
            if d is None: continue
            name = d.name
            tgt = ast.Name(id=name, ctx=ast.Store())
            struct = ty is not None and ty not in SCALARS and not ptr and type(n.base_type).__name__ == 'CSimpleBaseTypeNode' and not ty.endswith('type') \
                and not ty.endswith('Type') and not ty.endswith('_t') and ty != 'ndarray'
            if default is not None:
                out.append(ast.Assign(targets=[tgt], value=self.expr(default)))
            elif struct:
                out.append(ast.Assign(targets=[tgt], value=call('__cstruct__', ast.Constant(value=ty))))
            elif dims:
                out.append(ast.Assign(targets=[tgt], value=call('__carray__')))

    def args(self, n):
        args, defaults = [], []
        for a in n.args:
            d = a.declarator
            while type(d).__name__ != 'CNameDeclaratorNode': d = d.base
            nm = d.name or getattr(a.base_type, 'name', None)
            args.append(pos(a, ast.arg(arg=nm, annotation=None)))
            dv = a.default if a.default is not None else getattr(d, 'default', None)
            if dv is not None: defaults.append(self.expr(dv))
        st = getattr(n, 'star_arg', None)
        ss = getattr(n, 'starstar_arg', None)
        return ast.arguments(posonlyargs=[], args=args, vararg=ast.arg(arg=st.name) if st else None, kwonlyargs=[], kw_defaults=[],
                             kwarg=ast.arg(arg=ss.name) if ss else None, defaults=defaults)

    def decorators(self, n):
        out = []
        for d in n.decorators or []:
            e = self.expr(d.decorator)
            if 'cython' in ast.dump(e): continue
            out.append(e)
        return out

    def s_DefNode(self, n, out):
        out.append(pos(n, ast.FunctionDef(name=n.name, args=self.args(n), body=self.block(n.body), decorator_list=self.decorators(n), returns=None, type_params=[])))

    def s_CFuncDefNode(self, n, out):
        d = n.declarator
        while type(d).__name__ != 'CFuncDeclaratorNode': d = d.base
        nd = d.base
        while type(nd).__name__ != 'CNameDeclaratorNode': nd = nd.base
        out.append(pos(n, ast.FunctionDef(name=nd.name, args=self.args(d), body=self.block(n.body), decorator_list=[], returns=None, type_params=[])))

    def s_CClassDefNode(self, n, out):
        fields, body = [], []
        for s in self.block(n.body):
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and getattr(s.value.func, 'id', '') in ('__cstruct__', '__carray__'):
                fields.append(s)
            else:
                body.append(s)
        init = [s for s in body if isinstance(s, ast.FunctionDef) and s.name in ('__init__', '__cinit__')]
        if fields and init:
            f = init[0]
            me = f.args.args[0].arg
            pre = [ast.Assign(targets=[ast.Attribute(value=ast.Name(id=me, ctx=ast.Load()), attr=s.targets[0].id, ctx=ast.Store())], value=s.value) for s in fields]
            for p, s in zip(pre, fields): ast.copy_location(p, s)
            f.body[:0] = pre
        bases = []
        if getattr(n, 'bases', None) is not None:
            bases = [self.expr(b) for b in n.bases.args]
        out.append(pos(n, ast.ClassDef(name=n.class_name, bases=bases, keywords=[], body=body or [ast.Pass()], decorator_list=[], type_params=[])))

    def s_PyClassDefNode(self, n, out):
        b = n.bases
        bases = [self.expr(x) for x in getattr(b, 'args', [])] if b is not None else []
        out.append(pos(n, ast.ClassDef(name=n.name, bases=bases, keywords=[], body=self.block(n.body), decorator_list=[], type_params=[])))

    def s_ExprStatNode(self, n, out): out.append(ast.Expr(value=self.expr(n.expr)))

    def s_SingleAssignmentNode(self, n, out):
        r = n.rhs
        k = type(r).__name__
        if k == 'ImportNode':
            out.append(ast.Import(names=[ast.alias(name=str(self.raw(r.module_name)), asname=n.lhs.name)]))
            return
        out.append(ast.Assign(targets=[self.target(n.lhs)], value=self.expr(r)))

    def raw(self, n):
        return getattr(n, 'value', None)

    def s_FromImportStatNode(self, n, out):
        m = n.module
        names = [ast.alias(name=str(a), asname=b.name) for a, b in n.items]
        out.append(ast.ImportFrom(module=str(self.raw(m.module_name)), names=names, level=max(0, getattr(m, 'level', 0) or 0)))

    def s_CascadedAssignmentNode(self, n, out):
        out.append(ast.Assign(targets=[self.target(l) for l in n.lhs_list], value=self.expr(n.rhs)))

    def s_InPlaceAssignmentNode(self, n, out):
        out.append(ast.AugAssign(target=self.target(n.lhs), op=OPS[n.operator](), value=self.expr(n.rhs)))

    def s_ReturnStatNode(self, n, out):
        out.append(ast.Return(value=self.expr(n.value) if n.value is not None else None))

    def s_RaiseStatNode(self, n, out):
        out.append(ast.Raise(exc=self.expr(n.exc_type) if n.exc_type is not None else None, cause=None))

    def s_AssertStatNode(self, n, out):
        c = getattr(n, 'condition', None)
        if c is None: c = n.cond
        out.append(ast.Assert(test=self.expr(c), msg=None))

    def s_BreakStatNode(self, n, out): out.append(ast.Break())
    def s_ContinueStatNode(self, n, out): out.append(ast.Continue())

    def s_DelStatNode(self, n, out): out.append(ast.Delete(targets=[self.ctx(self.expr(a), ast.Del) for a in n.args]))

    def s_IfStatNode(self, n, out):
        els = self.block(n.else_clause) if n.else_clause is not None else []
        for c in reversed(n.if_clauses):
            els = [pos(c, ast.If(test=self.expr(c.condition), body=self.block(c.body), orelse=els))]
        out.extend(els)

    def s_WhileStatNode(self, n, out):
        out.append(ast.While(test=self.expr(n.condition), body=self.block(n.body), orelse=self.block(n.else_clause) if n.else_clause is not None else []))

    def s_ForInStatNode(self, n, out):
        it = n.iterator
        seq = getattr(it, 'sequence', it)
        out.append(ast.For(target=self.target(n.target), iter=self.expr(seq), body=self.block(n.body),
                           orelse=self.block(n.else_clause) if n.else_clause is not None else []))

    def s_ForFromStatNode(self, n, out):
        lo, hi = self.expr(n.bound1), self.expr(n.bound2)
        one = ast.Constant(value=1)
        if n.relation1 == '<': lo = ast.BinOp(left=lo, op=ast.Add(), right=one)
        if n.relation2 == '<=': hi = ast.BinOp(left=hi, op=ast.Add(), right=one)
        if n.relation2 not in ('<', '<='): raise PyxError('for from')
        a = [lo, hi] + ([self.expr(n.step)] if n.step is not None else [])
        out.append(ast.For(target=self.target(n.target), iter=call('range', *a), body=self.block(n.body), orelse=[]))

    def s_GILStatNode(self, n, out): self.stat(n.body, out)
    def s_NogilTryFinallyStatNode(self, n, out): self.stat(n.body, out)

    def s_TryExceptStatNode(self, n, out):
        hs = []
        for c in n.except_clauses:
            pat = c.pattern
            t = None
            if pat:
                t = self.expr(pat[0]) if len(pat) == 1 else ast.Tuple(elts=[self.expr(p) for p in pat], ctx=ast.Load())
            hs.append(ast.ExceptHandler(type=t, name=getattr(c.target, 'name', None) if c.target is not None else None, body=self.block(c.body)))
        out.append(ast.Try(body=self.block(n.body), handlers=hs, orelse=self.block(n.else_clause) if n.else_clause is not None else [], finalbody=[]))

    def s_TryFinallyStatNode(self, n, out):
        out.append(ast.Try(body=self.block(n.body), handlers=[], orelse=[], finalbody=self.block(n.finally_clause)))

    def s_WithStatNode(self, n, out):
        out.append(ast.With(items=[ast.withitem(context_expr=self.expr(n.manager), optional_vars=self.target(n.target) if n.target is not None else None)],
                            body=self.block(n.body)))

    # ---- expressions
    def target(self, n):
        return self.ctx(self.expr(n), ast.Store)

    def ctx(self, e, c):
        if isinstance(e, (ast.Tuple, ast.List)):
            for x in e.elts: self.ctx(x, c)
        if hasattr(e, 'ctx'): e.ctx = c()
        return e

    def expr(self, n):
        k = type(n).__name__
        m = getattr(self, 'e_' + k, None)
        if m is None:
            if k in BIN: return pos(n, self.bin(n))
            raise PyxError('expression %s' % k)
        return pos(n, m(n))

    def e_NameNode(self, n): return ast.Name(id=str(n.name), ctx=ast.Load())
    def e_IntNode(self, n): return ast.Constant(value=int(str(n.value).rstrip('uUlL'), 0))
    def e_FloatNode(self, n): return ast.Constant(value=float(n.value))
    def e_ImagNode(self, n): return ast.Constant(value=complex(0, float(n.value)))
    def e_BoolNode(self, n): return ast.Constant(value=bool(n.value))
    def e_NoneNode(self, n): return ast.Constant(value=None)
    def e_NullNode(self, n): return ast.Constant(value=None)
    def e_EllipsisNode(self, n): return ast.Constant(value=Ellipsis)
    def e_UnicodeNode(self, n): return ast.Constant(value=str(n.value))
    def e_StringNode(self, n): return ast.Constant(value=str(n.unicode_value if getattr(n, 'unicode_value', None) is not None else n.value))
    def e_IdentifierStringNode(self, n): return ast.Constant(value=str(n.value))
    def e_BytesNode(self, n): return ast.Constant(value=bytes(n.value))
    def e_JoinedStrNode(self, n): return ast.Constant(value='<str>')
    def e_AttributeNode(self, n): return ast.Attribute(value=self.expr(n.obj), attr=str(n.attribute), ctx=ast.Load())

    def e_IndexNode(self, n): return ast.Subscript(value=self.expr(n.base), slice=self.expr(n.index), ctx=ast.Load())

    def e_SliceIndexNode(self, n):
        f = lambda x: self.expr(x) if x is not None else None
        return ast.Subscript(value=self.expr(n.base), slice=ast.Slice(lower=f(n.start), upper=f(n.stop), step=None), ctx=ast.Load())

    def e_SliceNode(self, n):
        f = lambda x: None if x is None or type(x).__name__ == 'NoneNode' else self.expr(x)
        return ast.Slice(lower=f(n.start), upper=f(n.stop), step=f(n.step))

    def e_TupleNode(self, n): return ast.Tuple(elts=[self.expr(a) for a in n.args], ctx=ast.Load())
    def e_ListNode(self, n): return ast.List(elts=[self.expr(a) for a in n.args], ctx=ast.Load())
    def e_SetNode(self, n): return ast.Set(elts=[self.expr(a) for a in n.args])

    def e_DictNode(self, n):
        return ast.Dict(keys=[self.expr(i.key) for i in n.key_value_pairs], values=[self.expr(i.value) for i in n.key_value_pairs])

    def e_SimpleCallNode(self, n):
        return ast.Call(func=self.expr(n.function), args=[self.expr(a) for a in n.args or []], keywords=[])

    def e_GeneralCallNode(self, n):
        pa = n.positional_args
        k = type(pa).__name__
        if k == 'TupleNode': args = [self.expr(a) for a in pa.args]
        elif k == 'AsTupleNode': args = [ast.Starred(value=self.expr(pa.arg), ctx=ast.Load())]
        else: raise PyxError('call arguments %s' % k)
        kws = []
        kw = n.keyword_args
        if kw is not None:
            if type(kw).__name__ != 'DictNode': raise PyxError('keyword arguments')
            kws = [ast.keyword(arg=str(self.raw(i.key)), value=self.expr(i.value)) for i in kw.key_value_pairs]
        return ast.Call(func=self.expr(n.function), args=args, keywords=kws)

    def e_TypecastNode(self, n): return self.expr(n.operand)

    def e_AmpersandNode(self, n):
        o = self.expr(n.operand)
        if isinstance(o, ast.Subscript) and isinstance(o.slice, ast.Constant) and o.slice.value == 0: return o.value
        if isinstance(o, ast.Subscript): return call('__caddr__', o.value, o.slice if not isinstance(o.slice, ast.Slice) else ast.Constant(value=None))
        return o

    def e_SizeofVarNode(self, n): return ast.Constant(value='sizeof')
    def e_SizeofTypeNode(self, n): return ast.Constant(value='sizeof')

    def e_NotNode(self, n): return ast.UnaryOp(op=ast.Not(), operand=self.expr(n.operand))
    def e_UnaryMinusNode(self, n): return ast.UnaryOp(op=ast.USub(), operand=self.expr(n.operand))
    def e_UnaryPlusNode(self, n): return ast.UnaryOp(op=ast.UAdd(), operand=self.expr(n.operand))
    def e_TildeNode(self, n): return ast.UnaryOp(op=ast.Invert(), operand=self.expr(n.operand))

    def bin(self, n):
        return ast.BinOp(left=self.expr(n.operand1), op=OPS[n.operator](), right=self.expr(n.operand2))

    def e_BoolBinopNode(self, n):
        return ast.BoolOp(op=ast.And() if n.operator == 'and' else ast.Or(), values=[self.expr(n.operand1), self.expr(n.operand2)])

    def e_PrimaryCmpNode(self, n):
        ops, rights = [], []
        c = n
        while c is not None:
            ops.append(CMP[c.operator]())
            rights.append(self.expr(c.operand2))
            c = c.cascade
        return ast.Compare(left=self.expr(n.operand1), ops=ops, comparators=rights)

    def e_CondExprNode(self, n):
        t = n.test if hasattr(n, 'test') else n.condition
        return ast.IfExp(test=self.expr(t), body=self.expr(n.true_val), orelse=self.expr(n.false_val))

    def e_LambdaNode(self, n):
        raise PyxError('lambda')

    def e_ComprehensionNode(self, n):
        raise PyxError('comprehension')

    def e_GeneratorExpressionNode(self, n):
        raise PyxError('generator')


def call(name, *a):
    return ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=list(a), keywords=[])


OPS = {'+': ast.Add, '-': ast.Sub, '*': ast.Mult, '/': ast.Div, '//': ast.FloorDiv, '%': ast.Mod, '**': ast.Pow, '<<': ast.LShift, '>>': ast.RShift,
       '|': ast.BitOr, '&': ast.BitAnd, '^': ast.BitXor, '@': ast.MatMult}
BIN = {'AddNode', 'SubNode', 'MulNode', 'DivNode', 'ModNode', 'PowNode', 'IntBinopNode', 'NumBinopNode', 'MatMultNode', 'BitwiseOrNode'}
CMP = {'<': ast.Lt, '<=': ast.LtE, '>': ast.Gt, '>=': ast.GtE, '==': ast.Eq, '!=': ast.NotEq, 'is': ast.Is, 'is_not': ast.IsNot, 'in': ast.In, 'not_in': ast.NotIn}

if __name__ == '__main__':
    import sys
    print(ast.unparse(parse(open(sys.argv[1]).read())))
