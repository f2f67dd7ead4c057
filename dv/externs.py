"""Contracts of functions outside /repo (trusted) and LLVM intrinsics."""
import subprocess, re, z3
from ir import Unsupported, Ty, PTR
from terms import *
import terms as TM
from fractions import Fraction

_dem = {}


def demangle_all(names):
    ns = [n for n in names if n not in _dem]
    if not ns: return
    clean = [n[1:].strip('"') for n in ns]
    out = subprocess.run(['c++filt'], input='\n'.join(clean), capture_output=True, text=True).stdout.split('\n')
    for n, d in zip(ns, out): _dem[n] = d


def demangle(n):
    if n not in _dem: demangle_all([n])
    return _dem[n]


TABLE = []      # (regex on llvm name or demangled, handler)
USED = set()


def ext(rx):
    def deco(f):
        TABLE.append((re.compile(rx), f))
        return f
    return deco


def lookup(name, dem):
    n = name[1:].strip('"')
    for rx, f in TABLE:
        if rx.search(n) or rx.search(dem):
            if not n.startswith('llvm.'): USED.add(dem)
            return f
    return None


@ext(r'^llvm\.lifetime\.')
def lifetime(m, name, args, I, st, path):
    """the pointers in a local object of which the life begins or ends are undefined"""
    q = args[-1]
    if isinstance(q, Ptr) and q.reg.startswith('alloca!') and const_of(q.off) == 0 and not m.regions[q.reg].arity and not m.regions[q.reg].fields:
        for k in [k for k in st.mem if k[0] == q.reg and st.mem[k].kind == 'ptr']: del st.mem[k]
    return st, None


@ext(r'^llvm\.(dbg|assume|invariant|experimental\.noalias|donothing|stacksave|stackrestore)')
def nop(m, name, args, I, st, path): return st, None


@ext(r'^sqrtf?l?$|^llvm\.sqrt\.')
def sqrt_(m, name, args, I, st, path):
    a = args[0]
    r = m.sym('sqrt!' + path, 'real', st.ctx) if False else z3.Real('sqrt!%s!%d' % (path, a.v.get_id()))
    if st.ctx: raise Unsupported('sqrt inside a loop')
    st = st.assume(mk_imp(mk_and(fin(a), a.v >= 0), z3.And(r >= 0, r * r == a.v)))
    return st, FV(mk_or(a.nan, a.v < 0), a.inf, r)


RND = z3.Function('round', z3.RealSort(), z3.IntSort())


@ext(r'^l?l?roundf?l?$|^llvm\.(l?l?round)\.')
def round_(m, name, args, I, st, path):
    """nearest integer, halves away from zero"""
    a = args[0]
    x = z3.Real('rx')
    r = RND(x)
    if not m.by_decl.get(RND.get_id()):
        h = z3.Q(1, 2)
        m.add_fact([RND], (x,), z3.And(z3.ToReal(r) >= x - h, z3.ToReal(r) <= x + h, z3.Implies(x == z3.ToReal(r) + h, x < 0), z3.Implies(x == z3.ToReal(r) - h, x > 0)))
    if z3.is_rational_value(a.v):
        q = a.v.as_fraction()
        import math
        return st, FV(a.nan, a.inf, rv(math.floor(abs(q) + Fraction(1, 2)) * (1 if q >= 0 else -1)))
    v = FV(a.nan, a.inf, z3.ToReal(RND(a.v)))
    if 'lround' in name or 'llround' in name:
        m.obligation('lround in range', 'arith', st, mk_and(fin(a), a.v > -2**63, a.v < 2**63))
        return st, norm(RND(a.v))
    return st, v


@ext(r'^llvm\.expect\.')
def expect(m, name, args, I, st, path): return st, args[0]


@ext(r'^llvm\.(umin|smin|umax|smax)\.')
def minmax(m, name, args, I, st, path):
    a, b = args
    op = name.split('.')[1]
    if z3.is_bv(a):
        c = {'umin': lambda: z3.ULE(a, b), 'umax': lambda: z3.UGE(a, b), 'smin': lambda: a <= b, 'smax': lambda: a >= b}[op]()
        return st, z3.If(c, a, b)
    if op[0] == 'u': a, b = m.uns(a, 64), m.uns(b, 64)
    c = ile(a, b) if op.endswith('min') else ile(b, a)
    return st, iite(c, a, b)


@ext(r'^llvm\.fabs\.')
def fabs(m, name, args, I, st, path): return st, fabs_(args[0])


@ext(r'^llvm\.fmuladd\.|^llvm\.fma\.')
def fma(m, name, args, I, st, path): return st, fadd(fmul(args[0], args[1]), args[2])


@ext(r'^llvm\.(maxnum|minnum)\.')
def maxnum(m, name, args, I, st, path):
    a, b = args
    c = flt(a, b)
    if 'maxnum' in name: r = fite(c, b, a)
    else: r = fite(c, a, b)
    return st, fite(a.nan, b, fite(b.nan, a, r))


@ext(r'^llvm\.is\.fpclass')
def fpclass(m, name, args, I, st, path):
    v, mask = args
    k = const_of(mask) if z3.is_int(mask) else mask.as_long()
    # bits: 0 snan 1 qnan 2 -inf 3 -normal 4 -subnormal 5 -0 6 +0 7 +sub 8 +normal 9 +inf
    cs = []
    if k & 3 == 3: cs.append(v.nan)
    elif k & 3: raise Unsupported('fpclass')
    inf = mk_and(mk_not(v.nan), v.inf)
    if k & (1 << 2): cs.append(mk_and(inf, v.v < 0))
    if k & (1 << 9): cs.append(mk_and(inf, v.v > 0))
    fink = k & 0b0111111000 
    allfin = 0b0111111000
    f = mk_and(mk_not(v.nan), mk_not(v.inf))
    if (k & allfin | (k & (1 << 8))) == (allfin | (1 << 8)) or (k & 0x1f8) == 0x1f8: cs.append(f)
    elif (k & 0x1f8) == 0x60: cs.append(mk_and(f, v.v == 0))
    elif (k & 0x1f8): raise Unsupported('fpclass %d' % k)
    return st, mk_or(*cs) if cs else F


@ext(r'^llvm\.ctlz\.i64')
def ctlz(m, name, args, I, st, path):
    n = args[0]
    c = m.sym('clz!' + path, 'int', st.ctx)
    P = m.POW2
    p = P(norm(isub(icst(63), c)))
    m.fact_on(c, st.ctx, z3.And(c >= 0, c <= 63, z3.Implies(norm(n) >= 1, z3.And(p <= norm(n), norm(n) < 2 * p, p >= 1))), st.pc)
    return st, c


@ext(r'^__cxa_allocate_exception$')
def exalloc(m, name, args, I, st, path):
    from vc import Region
    r = Region('exc!' + path, None, arity=len(st.ctx), check=False)
    m.region(r)
    return st, Ptr(r.name, st.ctx, icst(0))


@ext(r'^__cxa_(free_exception|end_catch|guard_release|guard_abort)$')
def exfree(m, name, args, I, st, path): return st, None


@ext(r'^__cxa_throw$|^__cxa_rethrow$|^std::__throw_|^abort$|^std::terminate')
def throw(m, name, args, I, st, path):
    m.throws.append((st, demangle(name), path))
    return None, None


@ext(r'^std::(runtime_error|invalid_argument|logic_error|exception|length_error|out_of_range)::(runtime_error|~?\w+)\(')
def excctor(m, name, args, I, st, path): return st, None


@ext(r'^operator new(\[\])?\(unsigned long')
def opnew(m, name, args, I, st, path):
    from vc import Region
    size = args[0]
    p = poly(size)
    g = pgcd(p)
    c = const_of(size)
    rn = 'new!' + path
    h = getattr(m, 'new_elem', None)
    if c is not None and h and c % h == 0:
        reg = Region(rn, h, icst(c // h), arity=len(st.ctx))
    elif c is not None:
        e, ln = None, None
        reg = Region(rn, None, None, arity=len(st.ctx))
    else:
        e = g if g else 1
        if h and e % h == 0: e = h
        L = expr(pdiv_const(p, e))
        n = len(st.ctx)
        ctx = st.ctx
        reg = Region(rn, e, (lambda *fam: subst(L, list(zip(ctx, fam)))) if n else L, arity=n)
    m.region(reg)
    return st, Ptr(rn, st.ctx, icst(0))


@ext(r'^operator delete(\[\])?\(')
def opdel(m, name, args, I, st, path):
    """the block is given back once, as a whole, and not used afterwards (in_bounds looks at the freed cell)"""
    from vc import Region, Desc
    for c, q in m.resolve_alts(st, args[0]):
        if q.reg == 'NULL': continue
        if q.reg not in m.regions: raise Unsupported('delete of %r' % (q,))
        m.obligation('delete gives back a whole block once', 'bounds', st, mk_imp(c, mk_and(ieq(q.off, icst(0)), m.not_freed(st, q))))
        k = 'freed!' + q.reg
        if k not in m.regions: m.region(Region(k, None, arity=len(q.fam), init='zero', check=False))
        m.write_cell(st, (k, 0), 'bool', Desc((), c, q.fam + (icst(0),), T))
    return st, None


def _bulk(m, st, p, nbytes):
    """element index range of [p, p+nbytes)"""
    reg = m.regions[p.reg]
    if reg.elem is None: return None
    pp = poly(p.off)
    q = pdiv_const(pp, reg.elem)
    n = pdiv_const(poly(nbytes), reg.elem)
    if q is None or n is None: return None
    return expr(q), expr(n)


@ext(r'^llvm\.memset\.')
def memset(m, name, args, I, st, path):
    p, v, n = args[:3]
    cv = const_of(v) if z3.is_int(v) else (v.as_long() if z3.is_bv_value(v) else None)
    if cv != 0: raise Unsupported('memset with non-zero value')
    if isinstance(p, Choice): raise Unsupported('memset choice')
    if const_of(n) == 0: return st, None
    reg = m.regions[p.reg]
    m.obligation('memset', 'bounds', st, m_range_ok(m, p, n, st))
    touched = [k for k in list(st.mem) + list(m.initial) if k[0] == p.reg]
    if not touched and reg.init is None and not any(k[0] == p.reg for k in m.initial):
        # nothing known about the block yet: fresh zero initialised block
        full = reg.elem is None or is_t(ieq(n, imul(icst(reg.elem), reg.length(*p.fam) if callable(reg.length) else (reg.length if reg.length is not None else icst(-1)))))
        if full or reg.elem is None:
            reg.init = 'zero'
            return st, None
        reg.init = 'zero'     # the part beyond is unspecified; reading it is a bounds matter
        m.assumptions.add('fresh allocations partly zeroed are treated as fully zeroed')
        return st, None
    if reg.elem is None:
        c, o = const_of(n), const_of(p.off)
        if c is None: raise Unsupported('memset struct')
        for key in set(touched):
            if o <= key[1] < o + c:
                cell = m.get_cell(st, key, (st.mem.get(key) or m.initial[key]).kind)
                from vc import Desc
                st.mem[key] = cell.write(Desc((), T, p.fam + (icst(0),), zero_of(cell.kind)))
        return st, None
    b = _bulk(m, st, p, n)
    if b is None: raise Unsupported('memset range')
    from vc import Desc
    j = z3.Int('j!' + path)
    for key in set(touched):
        cell = m.get_cell(st, key, (st.mem.get(key) or m.initial[key]).kind)
        st.mem[key] = cell.write(Desc((j,), mk_and(ile(icst(0), j), ilt(j, b[1])), p.fam + (iadd(b[0], j),), zero_of(cell.kind)))
    return st, None


def zero_of(kind):
    if kind == 'fp': return ZERO
    if kind == 'int': return icst(0)
    if kind == 'bool': return F
    if kind == 'ptr': return NULL
    return z3.BitVecVal(0, int(kind[2:]))


def m_range_ok(m, p, n, st=None):
    reg = m.regions.get(p.reg)
    if p.reg == 'NULL': return ieq(n, icst(0))
    if reg is None: return F
    return mk_or(ieq(n, icst(0)), mk_and(m.not_freed(st, p), m_range_in(m, p, n, st))) if ('freed!' + p.reg) in m.regions else m_range_in(m, p, n, st)


def m_range_in(m, p, n, st):
    reg = m.regions.get(p.reg)
    if reg.elem is None or not reg.check: return T
    L = m.rlen(st, reg, p.fam)
    if L is None: return T
    return mk_or(ieq(n, icst(0)), mk_and(ile(icst(0), p.off), ile(icst(0), n), ile(iadd(p.off, n), imul(L, icst(reg.elem)))))


@ext(r'^llvm\.mem(cpy|move)\.|^mem(cpy|move)$')
def memcpy(m, name, args, I, st, path):
    d, s, n = args[:3]
    if const_of(n) == 0: return st, d
    da, sa = m.resolve_alts(st, d), m.resolve_alts(st, s)
    da = [x for x in da if x[1].reg != 'NULL'] if len(da) > 1 else da
    sa = [x for x in sa if x[1].reg != 'NULL'] if len(sa) > 1 else sa
    if len(da) != 1 or len(sa) != 1:
        # choices: one guarded copy per combination, all reading the memory before the copy
        s0 = st.copy()
        for c1, d1 in da:
            for c2, s1 in sa:
                c = mk_and(c1, c2)
                m.obligation('memcpy dst', 'bounds', st, mk_imp(c, m_range_ok(m, d1, n, st)))
                m.obligation('memcpy src', 'bounds', st, mk_imp(c, m_range_ok(m, s1, n, st)))
                rd, rs = m.regions[d1.reg], m.regions[s1.reg]
                if rd.elem is None or rd.elem != rs.elem or not hasattr(rs, 'layout'): raise Unsupported('memcpy choice of untyped memory')
                bd, bs = _bulk(m, st, d1, n), _bulk(m, st, s1, n)
                if bd is None or bs is None: raise Unsupported('memcpy choice range')
                from vc import Desc
                for f, kind in rs.layout.items():
                    j = z3.Int('j!%s!%s!%s' % (path, d1.reg, s1.reg))
                    val = m.get_cell(s0, (s1.reg, f), kind).read(s1.fam + (iadd(bs[0], j),))
                    m.write_cell(st, (d1.reg, f), kind, Desc((j,), mk_and(c, ile(icst(0), j), ilt(j, bd[1])), d1.fam + (iadd(bd[0], j),), val))
        return st, args[0]
    d, s = da[0][1], sa[0][1]
    m.obligation('memcpy dst', 'bounds', st, m_range_ok(m, d, n, st))
    m.obligation('memcpy src', 'bounds', st, m_range_ok(m, s, n, st))
    if d.reg == 'NULL' or s.reg == 'NULL': return st, d
    rd, rs = m.regions[d.reg], m.regions[s.reg]
    from vc import Desc
    if rd.elem is None and rs.elem is None or const_of(n) is not None and (rd.elem is None or rs.elem is None):
        # copy of a constant-size object: cell by cell
        c = const_of(n)
        keys = [k for k in set(list(st.mem) + list(m.initial)) if k[0] == s.reg]
        so, do = (const_of(s.off), const_of(d.off))
        fields = fields_of(m, st, s, c)
        for off, kind in fields:
            ps, pd = s.add(icst(off)), d.add(icst(off))
            ks_, i1 = m.cell_key(ps, 1)
            kd, i2 = m.cell_key(pd, 1)
            v = m.get_cell(st, ks_, kind).read(i1)
            m.write_cell(st, kd, kind, Desc((), T, i2, v))
        return st, args[0]
    if rd.elem != rs.elem:
        # adopt when the destination is untouched
        if not any(k[0] == d.reg for k in list(st.mem) + list(m.initial)) and not rd.fields and rd.length is not None:
            L = rd.length
            e0, e1 = rd.elem, rs.elem
            if e1 % e0 == 0 or e0 % e1 == 0:
                tot = (lambda *f: imul(L(*f), icst(e0))) if callable(L) else imul(L, icst(e0))
                def conv(x):
                    q = pdiv_const(poly(x), e1)
                    if q is None: raise Unsupported('memcpy element size')
                    return expr(q)
                rd.length = (lambda *f: conv(tot(*f))) if callable(L) else conv(tot)
                rd.elem = e1
        if rd.elem != rs.elem: raise Unsupported('memcpy between element sizes %s %s' % (rd.elem, rs.elem))
    bd, bs = _bulk(m, st, d, n), _bulk(m, st, s, n)
    if bd is None or bs is None: raise Unsupported('memcpy range %s' % n)
    j = z3.Int('j!' + path)
    snap = {}
    keys = sorted(set(k for k in list(st.mem) + list(m.initial) if k[0] == s.reg))
    dkeys = set(k[1] for k in list(st.mem) + list(m.initial) if k[0] == d.reg)
    have = {k[1]: (st.mem.get(k) or m.initial[k]).kind for k in keys}
    for f in dkeys:
        if f not in have: have[f] = (st.mem.get((d.reg, f)) or m.initial[(d.reg, f)]).kind
    for f, kd in rs.layout.items() if hasattr(rs, 'layout') else ():
        have.setdefault(f, kd)
    if not have and hasattr(rd, 'layout'): have = dict(rd.layout)
    if not have:
        # nothing is known about either block: the destination stays arbitrary
        if rd.init is None and not rd.fields and not rs.fields and rs.init is None: return st, args[0]
        raise Unsupported('memcpy of untyped memory %s' % s.reg)
    if hasattr(rs, 'layout') and not hasattr(rd, 'layout'): rd.layout = dict(rs.layout)
    for f, kind in have.items():
        snap[f] = m.get_cell(st, (s.reg, f), kind)
    for f, kind in have.items():
        val = snap[f].read(s.fam + (iadd(bs[0], j),))
        m.write_cell(st, (d.reg, f), kind, Desc((j,), mk_and(ile(icst(0), j), ilt(j, bd[1])), d.fam + (iadd(bd[0], j),), val))
    return st, args[0]


def fields_of(m, st, s, c):
    reg = m.regions[s.reg]
    o = const_of(s.off)
    out = []
    keys = set(k for k in list(st.mem) + list(m.initial) if k[0] == s.reg)
    lay = getattr(reg, 'layout', {})
    known = {k[1]: (st.mem.get(k) or m.initial[k]).kind for k in keys}
    for f, kd in lay.items(): known.setdefault(f, kd)
    if reg.elem is None:
        for f, kd in known.items():
            if o <= f < o + c: out.append((f - o, kd))
    else:
        base = poly(s.off).get((), 0) % reg.elem
        for f, kd in known.items():
            if base <= f < base + c: out.append((f - base, kd))
    return out
