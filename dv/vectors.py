"""Trusted contracts of std::vector.

A vector is its three pointers; its elements live in an abstract storage block whose current length is the vector's
size().  Growing keeps the abstract block (that iterators become invalid by reallocation is not modelled; the native
runs under the address sanitizer see it)."""
import re, z3
from ir import Unsupported, PTR
from terms import *
import terms as TM
import vc
from vc import Region, Desc, State

KEEP = [r'^(\w+ )?std::vector<.*>::(resize|assign|clear|_M_assign_aux|_M_default_append|_M_erase_at_end|~vector|vector|operator=|reserve|push_back|emplace_back)\b']


class VType:
    """element type: size and layout {offset: 'fp' | 'int' | VType (nested vector of that element type)}"""

    def __init__(self, size, layout): self.size, self.layout = size, layout


def complex_t(f): return VType(2 * f, {0: 'fp', f: 'fp'})


def scalar_t(f, kind='fp'): return VType(f, {0: kind})


def datarow(elem, size, a1, a2, vis):
    return VType(size, {a1: 'int', a2: 'int', vis: elem})


def attach(m, name, vt, owner, off, arity=0):
    """storage block of the vector whose begin pointer is the cell (owner, off)"""
    reg = Region(name, vt.size, None, arity=arity)
    reg.vt = vt
    reg.layout = {o: k for o, k in vt.layout.items() if isinstance(k, str)}
    def dyn(m, st, fam, owner=owner, off=off):
        idx = tuple(fam) if fam else (icst(0),)
        e = m.get_cell(st, (owner, off + 8), 'ptr').read(idx)
        return size_of(e, reg, vt.size)
    reg.dyn = dyn
    reg.sub = {}
    m.region(reg)
    for o, k in vt.layout.items():
        if isinstance(k, VType):
            reg.sub[o] = attach(m, '%s.%d' % (name, o), k, name, o, arity + 1)
            reg.fields[o] = lambda *ix, o=o, n='%s.%d' % (name, o): Ptr(n, tuple(ix), icst(0))
    return reg


def size_of(e, reg, elem):
    def one(p):
        if p.reg != reg.name: raise Unsupported('vector end outside its storage')
        q = pdiv_const(poly(p.off), elem)
        if q is None: return idiv(p.off, icst(elem))
        return expr(q)
    al = alts(e)
    v = one(al[-1][1])
    for c, p in reversed(al[:-1]): v = iite(c, one(p), v)
    return v


def vec_init(m, name, off_begin, n):
    """initial fields of a parameter vector object of n elements whose storage is `name`"""
    e = m.regions[name].elem
    return {off_begin: Ptr(name, (), icst(0)), off_begin + 8: Ptr(name, (), imul(icst(e), n)), off_begin + 16: Ptr(name, (), imul(icst(e), n))}


def row_sizes(m, name, off, n):
    """rows of storage `name` hold at `off` vectors of n(row) elements"""
    sub = m.regions[name].sub[off]
    m.regions[name].fields[off + 8] = lambda *ix: Ptr(sub.name, tuple(ix), imul(icst(sub.elem), n(ix[-1])))
    m.regions[name].fields[off + 16] = lambda *ix: Ptr(sub.name, tuple(ix), imul(icst(sub.elem), n(ix[-1])))


def begin_of(m, st, this):
    al = [(c, p) for c, p in m.resolve_alts(st, this)]
    if len(al) != 1: raise Unsupported('vector object choice')
    this = al[0][1]
    b = m.load(st, this, PTR)
    ba = m.resolve_alts(st, b)
    if len(ba) != 1 or ba[0][1].reg not in m.regions: raise Unsupported('vector begin %r' % (b,))
    b = ba[0][1]
    if b.reg == 'NULL':
        vt = getattr(m, 'vtypes', {}).get(this.reg)
        if vt is None: raise Unsupported('vector of unknown element type in ' + this.reg)
        raise Unsupported('empty local vector')
    reg = m.regions[b.reg]
    if not hasattr(reg, 'vt'): raise Unsupported('vector storage ' + b.reg)
    e = m.load(st, this.add(icst(8)), PTR)
    return this, b, reg, size_of(e, reg, reg.elem)


def set_size(m, st, this, b, reg, n):
    e = b.add(imul(icst(reg.elem), n))
    m.store(st, this.add(icst(8)), e, PTR)
    m.store(st, this.add(icst(16)), e, PTR)


def zero(kind):
    import externs
    return externs.zero_of(kind)


def fresh_elements(m, st, b, reg, lo, hi, path):
    """value-initialised elements lo..hi-1"""
    j = z3.Int('jv!' + path)
    g = mk_and(ile(lo, j), ilt(j, hi))
    for o, k in reg.vt.layout.items():
        if isinstance(k, str):
            m.write_cell(st, (reg.name, o), k, Desc((j,), g, b.fam + (j,), zero(k)))
        else:
            p = Ptr(reg.sub[o].name, b.fam + (j,), icst(0))
            for d in (8, 16): m.write_cell(st, (reg.name, o + d), 'ptr', Desc((j,), g, b.fam + (j,), p))


def resize(m, name, args, I, st, path):
    this, b, reg, s = begin_of(m, st, args[0])
    n = args[1]
    fresh_elements(m, st, b, reg, s, n, path)
    set_size(m, st, this, b, reg, n)
    return st, None


def clear(m, name, args, I, st, path):
    this, b, reg, s = begin_of(m, st, args[0])
    set_size(m, st, this, b, reg, icst(0))
    return st, None


def assign(m, name, args, I, st, path):
    this, b, reg, s = begin_of(m, st, args[0])
    f, l = args[1], args[2]
    if not isinstance(f, Ptr) or not isinstance(l, Ptr) or f.reg != l.reg: raise Unsupported('assign from %r' % (f,))
    src = m.regions[f.reg]
    if src.elem is None or not hasattr(src, 'layout'): raise Unsupported('assign from untyped memory')
    n = pdiv_const(poly(isub(l.off, f.off)), src.elem)
    o0 = pdiv_const(poly(f.off), src.elem)
    if n is None or o0 is None: raise Unsupported('assign range')
    n, o0 = expr(n), expr(o0)
    import externs
    m.obligation('vector::assign source', 'bounds', st, externs.m_range_ok(m, f, isub(l.off, f.off), st))
    j = z3.Int('ja!' + path)
    g = mk_and(ile(icst(0), j), ilt(j, n))
    so, do = sorted(src.layout), sorted(reg.layout)
    if len(so) != len(do) or any(src.layout[a] != reg.layout[c] for a, c in zip(so, do)): raise Unsupported('assign between element types')
    vals = [m.get_cell(st, (src.name, a), src.layout[a]).read(f.fam + (iadd(o0, j),)) for a in so]
    for a, v in zip(do, vals):
        m.write_cell(st, (reg.name, a), reg.layout[a], Desc((j,), g, b.fam + (j,), v))
    set_size(m, st, this, b, reg, n)
    return st, None


def nop(m, name, args, I, st, path): return st, None


def install(m):
    P = r'^(\w+ )?std::vector<.*>::'
    m.contracts += [(re.compile(P + r'resize\(unsigned long\)'), used(resize)), (re.compile(P + r'clear\('), used(clear)),
                    (re.compile(P + r'(assign|_M_assign_aux)<'), used(assign)), (re.compile(P + r'~vector\('), used(nop))]


def used(h):
    def f(m, name, args, I, st, path):
        import externs
        externs.USED.add(externs.demangle(name))
        return h(m, name, args, I, st, path)
    return f
