"""Drives the value analysis over the painter of pmesh/_window_imp.c."""
import os
import re
import time
from fractions import Fraction

from cfront import Module, lower, PTR
from cval import Alg, Num, Bool, Ptr, UNDEF, Unsupported
from cint import Interp, Obj


def di_structs(text):
    """struct name -> {field: (byte offset, base type name)} and enum name -> value from the debug info"""
    meta = {}
    for m in re.finditer(r'^!(\d+) = (?:distinct )?(!?\w*[({].*)$', text, re.M):
        meta[int(m.group(1))] = m.group(2)

    def attr(s, k):
        m = re.search(r'\b%s: (?:!(\d+)|"([^"]*)"|(-?\w+))' % k, s)
        if not m: return None
        if m.group(1): return ('m', int(m.group(1)))
        return m.group(2) if m.group(2) is not None else m.group(3)
    structs, enums, typedefs = {}, {}, {}

    def elements(s):
        e = attr(s, 'elements')
        if not e: return []
        return [meta[int(x)] for x in re.findall(r'!(\d+)', meta[e[1]])]

    def tyname(r, depth=0):
        if r is None or depth > 8: return 'void'
        s = meta[r[1]]
        if s.startswith('!DIBasicType'): return attr(s, 'name')
        if 'DW_TAG_pointer_type' in s: return 'ptr'
        if 'DW_TAG_array_type' in s: return tyname(attr(s, 'baseType'), depth + 1) + '[]'
        n = attr(s, 'name')
        if n: return n
        return tyname(attr(s, 'baseType'), depth + 1)
    for k, s in meta.items():
        if s.startswith('!DICompositeType(tag: DW_TAG_structure_type'):
            n = attr(s, 'name')
            d = {}
            for e in elements(s):
                if 'DW_TAG_member' not in e: continue
                off = attr(e, 'offset')
                d[attr(e, 'name')] = (int(off or 0) // 8, tyname(attr(e, 'baseType')), int(attr(e, 'size') or 0) // 8)
            if d: structs.setdefault(n, d)
            if d: structs['!%d' % k] = d
        elif s.startswith('!DIEnumerator'):
            enums[attr(s, 'name')] = int(attr(s, 'value'))
        elif 'DW_TAG_typedef' in s:
            typedefs[attr(s, 'name')] = attr(s, 'baseType')
    for n, r in typedefs.items():
        if r is not None and n not in structs and isinstance(r, tuple) and '!%d' % r[1] in structs:
            structs[n] = structs['!%d' % r[1]]
    return structs, enums


class WindowModule(object):
    def __init__(self, repo):
        self.repo = repo
        self.cfile = os.path.join(repo, 'pmesh', '_window_imp.c')
        text = lower(self.cfile, passes='mem2reg,lcssa')
        self.mod = Module(text)
        self.structs, self.enums = di_structs(text)
        self.painter = self.structs['PMeshPainter']
        self.kinds = {k[len('PMESH_PAINTER_'):]: v for k, v in self.enums.items() if k.startswith('PMESH_PAINTER_')}


class Cfg(object):
    """a constant configuration of the painter"""
    __slots__ = ('kind', 'ndim', 'order', 'elsize', 'hsml', 'periodic', 'support')

    def __init__(self, kind, ndim, order=None, elsize=8, hsml=1, periodic=None, support=-1):
        self.kind = kind
        self.ndim = ndim
        self.order = tuple(order) if order else (0,) * ndim
        self.elsize = elsize
        self.hsml = Fraction(hsml)
        self.periodic = tuple(periodic) if periodic else (True,) * ndim
        self.support = support

    def __str__(self):
        return 'window=%s ndim=%d order=%s elsize=%d hsml=%s periodic=%s support=%s' % (
            self.kind, self.ndim, list(self.order), self.elsize, self.hsml, [int(x) for x in self.periodic], self.support)

    def key(self):
        return (self.kind, self.ndim, self.order, self.elsize, self.hsml, self.periodic, self.support)


class SymObj(Obj):
    def __init__(self, name, interp, fields, cfg):
        Obj.__init__(self, name, 'sym')
        self.interp = interp
        self.fields = fields
        self.cfg = cfg

    def fieldof(self, c):
        for n, (off, ty, size) in self.fields.items():
            if off <= c < off + size:
                return n, c - off, ty
        return None, None, None

    def fresh(self, c, ty):
        alg = self.interp.alg
        n, r, t = self.fieldof(c)
        s = {'int[]': 4, 'double[]': 8, 'ptrdiff_t[]': 8}.get(t)
        d = r // s if s else 0
        if n in ('scale', 'translate'):
            return Num(alg.A(alg.atom(('fld', n, d))))
        if n in ('Nmesh', 'size', 'strides'):
            return Num(alg.A(alg.atom(('fld', n, d), isint=True)))
        return UNDEF


class Run(object):
    """painting and reading one particle with one configuration"""

    def __init__(self, wm, cfg, alg=None):
        self.wm = wm
        self.cfg = cfg
        self.it = it = Interp(wm.mod, alg)
        self.alg = alg = it.alg
        P = wm.painter
        o = SymObj('painter', it, P, cfg)
        it.objs['painter'] = o
        self.pobj = o
        c = o.cells
        C = lambda x: Num(alg.C(x))
        c[P['type'][0]] = C(wm.kinds[cfg.kind])
        c[P['ndim'][0]] = C(cfg.ndim)
        c[P['support'][0]] = C(cfg.support)
        c[P['canvas_dtype_elsize'][0]] = C(cfg.elsize)
        for d in range(cfg.ndim):
            c[P['order'][0] + 4 * d] = C(cfg.order[d])
            c[P['scale'][0] + 8 * d] = Num(alg.A(alg.atom(('fld', 'scale', d))))
            c[P['translate'][0] + 8 * d] = Num(alg.A(alg.atom(('fld', 'translate', d))))
            n = alg.atom(('fld', 'Nmesh', d), isint=True, lo=Fraction(1))
            alg.positive.add(n)
            c[P['Nmesh'][0] + 8 * d] = Num(alg.A(n)) if cfg.periodic[d] else Num({})
            c[P['size'][0] + 8 * d] = Num(alg.A(alg.atom(('fld', 'size', d), isint=True, lo=Fraction(0))))
            c[P['strides'][0] + 8 * d] = Num(alg.A(alg.atom(('fld', 'strides', d), isint=True)))
        for d in range(cfg.ndim, 32): c[P['order'][0] + 4 * d] = Num({})   # the object which holds it starts zeroed
        it.objs['canvas'] = Obj('canvas', 'canvas')
        c[P['canvas'][0]] = it.ptr('canvas')
        pos = Obj('pos', 'argument')
        for d in range(cfg.ndim):
            pos.cells[8 * d] = Num(alg.A(alg.atom(('pos', 'pos', d))))
        it.objs['pos'] = pos
        it.call('@pmesh_painter_init', [it.ptr('painter')])
        self.vfactor = None

    def paint(self):
        it, alg = self.it, self.alg
        n = len(it.accesses)
        it.nstores = 0
        self.mass = alg.atom(('fld', 'mass', 0))
        it.call('@pmesh_painter_paint', [it.ptr('painter'), it.ptr('pos'), Num(alg.A(self.mass)), Num(alg.C(self.cfg.hsml))])
        return it.accesses[n:]

    def readout(self):
        it, alg = self.it, self.alg
        n = len(it.accesses)
        it.nstores = 0
        v = it.call('@pmesh_painter_readout', [it.ptr('painter'), it.ptr('pos'), Num(alg.C(self.cfg.hsml))])
        return v, it.accesses[n:]
