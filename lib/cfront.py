"""LLVM IR front end: lowers a C file with clang and parses the textual IR."""
import os
import re
import shutil
import struct
import subprocess
import sys
import tempfile
from fractions import Fraction

CLANG = shutil.which('clang-18') or shutil.which('clang')
OPT = shutil.which('opt-18') or shutil.which('opt')


class BuildError(Exception):
    pass


class ParseError(Exception):
    pass


def snap(x):
    """the rational a floating point constant stands for"""
    f = Fraction(x)
    if f.denominator <= 1 << 20:
        return f
    s = f.limit_denominator(2000)
    if abs(s - f) <= abs(f) * Fraction(1, 10 ** 15):
        return s
    # decimal constants written in the source
    s = Fraction(repr(float(f)))
    return s


def lower(cfile, includes=(), defines=(), passes='mem2reg'):
    """IR text of a C file"""
    tmp = tempfile.mkdtemp(prefix='vf_ir_')
    try:
        ll = os.path.join(tmp, 'a.ll')
        cmd = [CLANG, '-O1', '-Xclang', '-disable-llvm-passes', '-ffp-contract=off', '-fno-discard-value-names', '-g', '-gdwarf-4',
               '-S', '-emit-llvm', '-w', cfile, '-o', ll]
        for i in includes:
            cmd += ['-I', i]
        for d in defines:
            cmd += ['-D', d]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
        if r.returncode != 0:
            raise BuildError('clang failed on %s\n%s' % (cfile, r.stdout[-2000:]))
        out = os.path.join(tmp, 'b.ll')
        r = subprocess.run([OPT, '-S', '-passes=' + passes, ll, '-o', out],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
        if r.returncode != 0:
            raise BuildError('opt failed on %s\n%s' % (cfile, r.stdout[-2000:]))
        with open(out) as f:
            return f.read()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ---------------------------------------------------------------- types

class Ty(object):
    __slots__ = ('kind', 'bits', 'elt', 'n', 'fields', 'name')

    def __init__(self, kind, bits=0, elt=None, n=0, fields=None, name=None):
        self.kind = kind
        self.bits = bits
        self.elt = elt
        self.n = n
        self.fields = fields
        self.name = name

    def __repr__(self):
        if self.kind == 'int': return 'i%d' % self.bits
        if self.kind == 'array': return '[%d x %r]' % (self.n, self.elt)
        return self.name or self.kind


PTR = Ty('ptr')
DOUBLE = Ty('fp', 64, name='double')
FLOAT = Ty('fp', 32, name='float')
VOID = Ty('void')
LABEL = Ty('label')
META = Ty('metadata')
_INTS = {}


def INT(b):
    if b not in _INTS:
        _INTS[b] = Ty('int', b)
    return _INTS[b]


TOK = re.compile(r'''\s*(?:
    (?P<str>c?"(?:[^"\\]|\\.)*")
  | (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
  | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
  | (?P<meta>!(?:[-a-zA-Z$._0-9]+|\{|"[^"]*")?)
  | (?P<attr>\#\d+)
  | (?P<hex>-?0x[0-9A-Fa-f]+)
  | (?P<num>-?\d+(?:\.\d*(?:[eE][-+]?\d+)?)?)
  | (?P<dots>\.\.\.)
  | (?P<word>[a-zA-Z_$.][-a-zA-Z_$.0-9]*:?)
  | (?P<p>[][(){}<>,=*:|])
  )''', re.X)


class Toks(object):
    def __init__(self, line):
        self.t = []
        i = 0
        n = len(line)
        while i < n:
            m = TOK.match(line, i)
            if not m:
                if line[i:].strip() == '' or line[i:].lstrip().startswith(';'):
                    break
                raise ParseError('token at %r' % line[i:i + 60])
            i = m.end()
            self.t.append((m.lastgroup, m.group(m.lastgroup)))
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else None

    def kind(self, k=0):
        return self.t[self.i + k][0] if self.i + k < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def accept(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if self.peek() != v:
            raise ParseError('expected %r at %r' % (v, self.t[self.i:self.i + 6]))
        self.i += 1


ATTRS = set('''noundef nonnull nocapture readonly writeonly readnone zeroext signext noalias immarg returned inreg nofree
 nsw nuw exact inbounds fast nnan ninf nsz arcp contract afn reassoc disjoint nneg dso_local internal private external global
 constant unnamed_addr local_unnamed_addr align volatile tail musttail notail noundef mustprogress common hidden linkonce_odr weak
 available_externally thread_local signext cold noinline'''.split())


class Instr(object):
    __slots__ = ('op', 'dest', 'ty', 'a', 'line', 'file')

    def __init__(self, op, dest, ty, a):
        self.op = op
        self.dest = dest
        self.ty = ty
        self.a = a
        self.line = None
        self.file = None

    def __repr__(self):
        return '%s=%s %r %r' % (self.dest, self.op, self.ty, self.a)


class Func(object):
    def __init__(self, name, ret, params):
        self.name = name
        self.ret = ret
        self.params = params
        self.blocks = {}
        self.order = []


class Module(object):
    def __init__(self, text):
        self.structs = {}
        self.globals = {}
        self.funcs = {}
        self.declared = set()
        self.meta = {}
        self._bodies = {}
        self.parse(text)

    # ---- types
    def type(self, t):
        w = t.peek()
        k = t.kind()
        if w == 'ptr':
            t.next()
            r = PTR
        elif w == 'void':
            t.next()
            r = VOID
        elif w == 'double':
            t.next()
            r = DOUBLE
        elif w == 'float':
            t.next()
            r = FLOAT
        elif w == 'label':
            t.next()
            r = LABEL
        elif w == 'metadata':
            t.next()
            r = META
        elif k == 'word' and re.match(r'i\d+$', w):
            t.next()
            r = INT(int(w[1:]))
        elif w == '[':
            t.next()
            n = int(t.next())
            t.expect('x')
            e = self.type(t)
            t.expect(']')
            r = Ty('array', elt=e, n=n)
        elif w == '{':
            t.next()
            fs = []
            while not t.accept('}'):
                fs.append(self.type(t))
                t.accept(',')
            r = Ty('struct', fields=fs)
        elif w == '<':
            t.next()
            n = int(t.next())
            t.expect('x')
            e = self.type(t)
            t.expect('>')
            r = Ty('vector', elt=e, n=n)
        elif k == 'loc':
            t.next()
            r = self.structs.setdefault(w, Ty('struct', fields=None, name=w))
        else:
            raise ParseError('type at %r' % t.t[t.i:t.i + 5])
        while t.peek() == '*':
            t.next()
            r = PTR
        return r

    def size(self, ty):
        if ty.kind == 'int': return max(1, (ty.bits + 7) // 8)
        if ty.kind == 'fp': return ty.bits // 8
        if ty.kind == 'ptr': return 8
        if ty.kind in ('array', 'vector'): return ty.n * self.size(ty.elt)
        if ty.kind == 'struct':
            off = 0
            al = 1
            for f in ty.fields:
                a = self.align(f)
                al = max(al, a)
                off = (off + a - 1) // a * a + self.size(f)
            return (off + al - 1) // al * al
        raise ParseError('size of %r' % ty)

    def align(self, ty):
        if ty.kind in ('array', 'vector'): return self.align(ty.elt)
        if ty.kind == 'struct': return max([1] + [self.align(f) for f in ty.fields])
        return self.size(ty)

    def offset(self, ty, i):
        off = 0
        for k, f in enumerate(ty.fields):
            a = self.align(f)
            off = (off + a - 1) // a * a
            if k == i: return off
            off += self.size(f)
        raise ParseError('field')

    # ---- constants & operands
    def operand(self, t, ty):
        k, w = t.kind(), t.peek()
        if k == 'loc':
            t.next()
            return ('v', w)
        if k == 'glob':
            t.next()
            return ('g', w)
        if k == 'num':
            t.next()
            if ty.kind == 'fp':
                return ('c', snap(Fraction(w)))
            return ('c', Fraction(int(w)))
        if k == 'hex':
            t.next()
            if ty.kind == 'fp':
                bits = int(w, 16)
                return ('c', snap(Fraction(struct.unpack('>d', struct.pack('>Q', bits))[0])) if self._finite(bits) else ('nan',))
            return ('c', Fraction(int(w, 16)))
        if w in ('true', 'false'):
            t.next()
            return ('c', Fraction(1 if w == 'true' else 0))
        if w == 'null':
            t.next()
            return ('null',)
        if w in ('undef', 'poison'):
            t.next()
            return ('undef',)
        if w == 'zeroinitializer':
            t.next()
            return ('zero', ty)
        if w == 'getelementptr':
            t.next()
            while t.peek() in ('inbounds', 'nuw', 'nusw'): t.next()
            t.expect('(')
            sty = self.type(t)
            t.expect(',')
            self.type(t)
            base = self.operand(t, PTR)
            idx = []
            while t.accept(','):
                ity = self.type(t)
                idx.append((ity, self.operand(t, ity)))
            t.expect(')')
            return ('gep', sty, base, idx)
        if w == '[':
            t.next()
            vals = []
            while not t.accept(']'):
                ety = self.type(t)
                vals.append(self.operand(t, ety))
                t.accept(',')
            return ('arr', vals)
        if w == '{':
            t.next()
            vals = []
            while not t.accept('}'):
                ety = self.type(t)
                vals.append((ety, self.operand(t, ety)))
                t.accept(',')
            return ('struct', vals)
        if k == 'str':
            t.next()
            return ('str', w)
        if k == 'meta':
            while t.peek() not in (None, ')', ','): t.next()
            return ('meta',)
        raise ParseError('operand at %r' % t.t[t.i:t.i + 6])

    @staticmethod
    def _finite(bits):
        return (bits >> 52) & 0x7ff != 0x7ff

    def attrs(self, t):
        while True:
            w = t.peek()
            if w in ATTRS:
                t.next()
                if w == 'align' and t.kind() == 'num': t.next()
            elif w in ('dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'memory', 'range', 'nofpclass', 'captures', 'elementtype', 'align'):
                t.next()
                if t.accept('('):
                    d = 1
                    while d:
                        x = t.next()
                        d += x == '('
                        d -= x == ')'
            elif t.kind() == 'attr':
                t.next()
            else:
                return

    def top(self, line):
        m = re.match(r'(%[-\w$."]+) = type (.*)', line)
        if m:
            s = self.structs.setdefault(m.group(1), Ty('struct', name=m.group(1)))
            t = Toks(m.group(2))
            if t.peek() == 'opaque':
                s.fields = []
                return
            s.fields = self.type(t).fields
            return
        m = re.match(r'(@[-\w$."]+) = (.*)', line)
        if m:
            t = Toks(m.group(2))
            const = 'constant' in m.group(2).split('[')[0].split()
            self.attrs(t)
            while t.peek() in ('addrspace', 'external'): t.next()
            ty = self.type(t)
            init = None
            if t.peek() not in (None, ',') and t.kind() != 'attr':
                init = self.operand(t, ty)
            self.globals[m.group(1)] = (ty, init, const)

    def parse(self, text):
        lines = text.split('\n')
        i = 0
        # struct types first
        for l in lines:
            if l.startswith('%') and ' = type ' in l:
                self.top(l)
        pend = []
        while i < len(lines):
            l = lines[i]
            if l.startswith('@'):
                pend.append(l)
            elif l.startswith('declare'):
                m = re.search(r'(@[-\w$."]+)\(', l)
                self.declared.add(m.group(1))
            elif l.startswith('!'):
                m = re.match(r'!(\d+) = (?:distinct )?(.*)', l)
                if m:
                    self.meta[int(m.group(1))] = m.group(2)
            elif l.startswith('define'):
                j = i + 1
                while lines[j] != '}': j += 1
                m = re.search(r'(@[-\w$."]+)\(', l)
                self._bodies[m.group(1)] = (l, lines[i + 1:j])
                i = j
            i += 1
        for l in pend:
            self.top(l)

    def line(self, n):
        d = self.meta.get(n, '')
        m = re.search(r'line: (\d+)', d)
        line = int(m.group(1)) if m else None
        s = re.search(r'scope: !(\d+)', d)
        f = None
        seen = 0
        while s and seen < 20:
            seen += 1
            d = self.meta.get(int(s.group(1)), '')
            fm = re.search(r'file: !(\d+)', d)
            if fm:
                ff = re.search(r'filename: "([^"]*)"', self.meta.get(int(fm.group(1)), ''))
                f = ff.group(1) if ff else None
                break
            s = re.search(r'scope: !(\d+)', d)
        return f, line

    def func(self, name):
        if name in self.funcs: return self.funcs[name]
        if name not in self._bodies: return None
        head, body = self._bodies[name]
        t = Toks(head)
        while t.kind() != 'glob':
            # return type comes right before the name
            k = t.i
            t.next()
        # re-parse the return type
        t2 = Toks(head)
        t2.next()
        while True:
            self.attrs(t2)
            try:
                save = t2.i
                ret = self.type(t2)
                break
            except ParseError:
                t2.i = save
                t2.next()
        t.next()
        t.expect('(')
        params = []
        while not t.accept(')'):
            if t.accept('...'): continue
            ty = self.type(t)
            self.attrs(t)
            params.append((ty, t.next()))
            t.accept(',')
        f = Func(name, ret, params)
        # first block label
        cur = None
        for raw in body:
            l = raw
            if not l.strip(): continue
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', l)
            if m and not l.startswith(' '):
                cur = '%' + m.group(1)
                f.blocks[cur] = []
                f.order.append(cur)
                continue
            if cur is None:
                cur = '%entry0'
                f.blocks[cur] = []
                f.order.append(cur)
            f.blocks[cur].append(l)
        # join multi line switches
        for b in f.order:
            ls = []
            acc = None
            for l in f.blocks[b]:
                if acc is not None:
                    acc += ' ' + l.strip()
                    if l.strip().startswith(']'):
                        ls.append(acc)
                        acc = None
                    continue
                if l.strip().startswith('switch') and ']' not in l.split('[')[-1]:
                    acc = l.strip()
                    continue
                ls.append(l)
            f.blocks[b] = [x for x in (self.instr(l) for l in ls) if x is not None]
        self.funcs[name] = f
        return f

    def instr(self, l):
        dbg = re.search(r'!dbg !(\d+)', l)
        l2 = re.sub(r'(, )?!\w+ !\d+', '', l)
        t = Toks(l2)
        dest = None
        if t.kind() == 'loc' and t.peek(1) == '=':
            dest = t.next()
            t.next()
        r = self.instr1(t, dest, l2)
        if r is not None and dbg:
            r.file, r.line = self.line(int(dbg.group(1)))
        return r

    def instr1(self, t, dest, l):
        op = t.next()
        while op in ('tail', 'musttail', 'notail'):
            op = t.next()
        T, O = self.type, self.operand
        if op == 'ret':
            ty = T(t)
            if ty is VOID: return Instr('ret', None, ty, None)
            return Instr('ret', None, ty, O(t, ty))
        if op == 'br':
            ty = T(t)
            if ty is LABEL:
                return Instr('br', None, None, (None, t.next(), None))
            c = O(t, ty)
            t.expect(',')
            T(t)
            a = t.next()
            t.expect(',')
            T(t)
            b = t.next()
            return Instr('br', None, None, (c, a, b))
        if op == 'switch':
            ty = T(t)
            v = O(t, ty)
            t.expect(',')
            T(t)
            d = t.next()
            t.expect('[')
            cases = []
            while not t.accept(']'):
                ct = T(t)
                c = O(t, ct)
                t.expect(',')
                T(t)
                cases.append((c, t.next()))
            return Instr('switch', None, ty, (v, d, cases))
        if op == 'unreachable':
            return Instr('unreachable', None, None, None)
        if op == 'phi':
            while t.peek() in ATTRS: t.next()
            ty = T(t)
            inc = []
            while True:
                t.expect('[')
                v = O(t, ty)
                t.expect(',')
                b = t.next()
                t.expect(']')
                inc.append((v, b))
                if not t.accept(','): break
            return Instr('phi', dest, ty, inc)
        if op == 'alloca':
            ty = T(t)
            n = ('c', Fraction(1))
            if t.accept(',') and t.peek() != 'align':
                nt = T(t)
                n = O(t, nt)
            return Instr('alloca', dest, ty, n)
        if op == 'load':
            while t.peek() in ('volatile', 'atomic'): t.next()
            ty = T(t)
            t.expect(',')
            T(t)
            return Instr('load', dest, ty, O(t, PTR))
        if op == 'store':
            while t.peek() in ('volatile', 'atomic'): t.next()
            ty = T(t)
            v = O(t, ty)
            t.expect(',')
            T(t)
            return Instr('store', None, ty, (v, O(t, PTR)))
        if op == 'getelementptr':
            while t.peek() in ('inbounds', 'nuw', 'nusw'): t.next()
            sty = T(t)
            t.expect(',')
            T(t)
            base = O(t, PTR)
            idx = []
            while t.accept(','):
                ity = T(t)
                idx.append((ity, O(t, ity)))
            return Instr('gep', dest, sty, (base, idx))
        if op in ('icmp', 'fcmp'):
            while t.peek() in ATTRS: t.next()
            pred = t.next()
            ty = T(t)
            a = O(t, ty)
            t.expect(',')
            b = O(t, ty)
            return Instr(op, dest, ty, (pred, a, b))
        if op == 'select':
            while t.peek() in ATTRS: t.next()
            ct = T(t)
            c = O(t, ct)
            t.expect(',')
            ty = T(t)
            a = O(t, ty)
            t.expect(',')
            T(t)
            b = O(t, ty)
            return Instr('select', dest, ty, (c, a, b))
        if op in ('sext', 'zext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'bitcast', 'ptrtoint', 'inttoptr'):
            while t.peek() in ATTRS: t.next()
            ty = T(t)
            v = O(t, ty)
            t.expect('to')
            to = T(t)
            return Instr(op, dest, to, (ty, v))
        if op == 'fneg':
            while t.peek() in ATTRS: t.next()
            ty = T(t)
            return Instr('fneg', dest, ty, O(t, ty))
        if op in ('freeze',):
            ty = T(t)
            return Instr('freeze', dest, ty, O(t, ty))
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            while t.peek() in ATTRS: t.next()
            ty = T(t)
            a = O(t, ty)
            t.expect(',')
            b = O(t, ty)
            return Instr(op, dest, ty, (a, b))
        if op == 'call':
            while True:
                while t.peek() in ATTRS: t.next()
                self.attrs(t)
                break
            ty = T(t)
            self.attrs(t)
            if t.accept('('):       # function type of a variadic callee
                d = 1
                while d:
                    x = t.next()
                    d += x == '('
                    d -= x == ')'
            callee = ('v', t.next()) if t.kind() == 'loc' else ('g', t.next()) if t.kind() == 'glob' else None
            if callee is None:
                raise ParseError('callee in %r' % l)
            if callee[1].startswith('@llvm.dbg') or callee[1].startswith('@llvm.lifetime') or callee[1].startswith('@llvm.stack'):
                if callee[1].startswith('@llvm.stacksave'):
                    return Instr('call', dest, ty, (callee, []))
                return None
            t.expect('(')
            args = []
            while not t.accept(')'):
                at = T(t)
                self.attrs(t)
                args.append((at, O(t, at)))
                t.accept(',')
            return Instr('call', dest, ty, (callee, args))
        raise ParseError('instruction %r' % l)
