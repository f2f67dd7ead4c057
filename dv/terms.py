"""Term layer: canonical integer polynomials, folded booleans, IEEE values as
(nan, inf, real) triples, pointers as (region, family index, byte offset)."""
import z3
from fractions import Fraction
from math import gcd

T, F = z3.BoolVal(True), z3.BoolVal(False)
_keep = []          # keep asts alive so that ids stay unique


def is_t(b): return z3.is_true(b)
def is_f(b): return z3.is_false(b)


def mk_not(a):
    if is_t(a): return F
    if is_f(a): return T
    if z3.is_not(a): return a.arg(0)
    return z3.Not(a)


def mk_and(*xs):
    out, seen = [], set()
    for x in xs:
        if is_t(x): continue
        if is_f(x): return F
        for y in (x.children() if z3.is_and(x) else [x]):
            i = y.get_id()
            if i in seen: continue
            n = y.arg(0).get_id() if z3.is_not(y) else None
            if n is not None and n in seen: return F
            seen.add(i); out.append(y)
    ids = {y.get_id() for y in out}
    for y in out:
        if z3.is_not(y) and y.arg(0).get_id() in ids: return F
    if not out: return T
    if len(out) == 1: return out[0]
    return z3.And(*out)


def mk_or(*xs):
    return mk_not(mk_and(*[mk_not(x) for x in xs])) if len(xs) != 1 else xs[0]


def mk_or(*xs):
    out, seen = [], set()
    for x in xs:
        if is_f(x): continue
        if is_t(x): return T
        i = x.get_id()
        if i in seen: continue
        seen.add(i); out.append(x)
    ids = {y.get_id() for y in out}
    for y in out:
        if z3.is_not(y) and y.arg(0).get_id() in ids: return T
    if not out: return F
    if len(out) == 1: return out[0]
    return z3.Or(*out)


def mk_imp(a, b):
    return mk_or(mk_not(a), b)


def mk_ite(c, a, b):
    if is_t(c): return a
    if is_f(c): return b
    if a.eq(b): return a
    if z3.is_bool(a):
        if is_t(a) and is_f(b): return c
        if is_f(a) and is_t(b): return mk_not(c)
        if is_t(a): return mk_or(c, b)
        if is_f(a): return mk_and(mk_not(c), b)
        if is_t(b): return mk_or(mk_not(c), a)
        if is_f(b): return mk_and(c, a)
    return z3.If(c, a, b)


# ---------------------------------------------------------------- polynomials
# monomial: tuple of sorted atom ids; Poly: dict monomial -> int coefficient
_atoms = {}
_pcache = {}
_fcache = {}


def _atom_id(e):
    i = e.get_id()
    if i not in _atoms:
        _atoms[i] = e
        _keep.append(e)
    return i


def poly(e):
    """z3 Int expr -> poly dict"""
    if isinstance(e, int): return {(): e} if e else {}
    i = e.get_id()
    r = _pcache.get(i)
    if r is not None: return r
    k = e.decl().kind()
    if z3.is_int_value(e):
        v = e.as_long()
        r = {(): v} if v else {}
    elif k == z3.Z3_OP_ADD:
        r = {}
        for c in e.children():
            for m, v in poly(c).items():
                r[m] = r.get(m, 0) + v
        r = {m: v for m, v in r.items() if v}
    elif k == z3.Z3_OP_SUB:
        ch = e.children()
        r = dict(poly(ch[0]))
        for c in ch[1:]:
            for m, v in poly(c).items():
                r[m] = r.get(m, 0) - v
        r = {m: v for m, v in r.items() if v}
    elif k == z3.Z3_OP_UMINUS:
        r = {m: -v for m, v in poly(e.arg(0)).items()}
    elif k == z3.Z3_OP_MUL:
        r = {(): 1}
        for c in e.children():
            r = pmul(r, poly(c))
    else:
        r = {(_atom_id(e),): 1}
    _pcache[i] = r
    _keep.append(e)
    return r


def pmul(a, b):
    r = {}
    for m1, v1 in a.items():
        for m2, v2 in b.items():
            m = tuple(sorted(m1 + m2))
            r[m] = r.get(m, 0) + v1 * v2
    return {m: v for m, v in r.items() if v}


def padd(a, b, f=1):
    r = dict(a)
    for m, v in b.items():
        r[m] = r.get(m, 0) + f * v
    return {m: v for m, v in r.items() if v}


def expr(p):
    key = tuple(sorted(p.items()))
    e = _fcache.get(key)
    if e is not None: return e
    q = fold_mod(p)
    if q is not None:
        e = _fcache[key] = expr(q)
        return e
    ts = []
    for m, v in key:
        fs = [_atoms[i] for i in m]
        if not fs:
            ts.append(z3.IntVal(v)); continue
        t = fs[0]
        for f in fs[1:]: t = t * f
        if v != 1: t = z3.IntVal(v) * t
        ts.append(t)
    if not ts: e = z3.IntVal(0)
    elif len(ts) == 1: e = ts[0]
    else: e = z3.Sum(ts)
    _fcache[key] = e
    _keep.append(e)
    _pcache[e.get_id()] = p
    return e


def fold_mod(p):
    """a - b*DIV(a,b) is MOD(a,b) (for b > 0 the only case with facts about either; see divmod_facts)"""
    for m, v in p.items():
        for i in m:
            x = _atoms.get(i)
            if x is None or x.num_args() != 2: continue
            if x.decl().eq(DIV) and len(m) > 1:
                a, b = poly(x.arg(0)), poly(x.arg(1))
                if len(b) != 1: continue
                (bm, bc), = b.items()
                if bc != 1 or tuple(sorted(bm + (i,))) != m: continue
                if v < 0 and a and all(p.get(am) == -v * ac for am, ac in a.items()):
                    return padd(padd(padd(p, {m: v}, -1), a, v), {(_atom_id(MOD(x.arg(0), x.arg(1))),): -v})
                mk = (_atom_id(MOD(x.arg(0), x.arg(1))),)
                if p.get(mk) == v: return padd(padd(padd(p, {m: v}, -1), {mk: v}, -1), a, v)
    return None


def norm(e): return expr(poly(e))
def iadd(a, b): return expr(padd(poly(a), poly(b)))
def isub(a, b): return expr(padd(poly(a), poly(b), -1))
def imul(a, b): return expr(pmul(poly(a), poly(b)))
def icst(n): return expr({(): n} if n else {})


def const_of(e):
    p = poly(e)
    if not p: return 0
    if len(p) == 1 and () in p: return p[()]
    return None


def pdiv_const(p, c):
    if all(v % c == 0 for v in p.values()): return {m: v // c for m, v in p.items()}
    return None


def pdiv_mono(p, m):
    """divide by single-term poly {mono: coeff}; None if not divisible"""
    (mm, c), = m.items()
    r = {}
    for k, v in p.items():
        if v % c: return None
        kk = list(k)
        for a in mm:
            if a not in kk: return None
            kk.remove(a)
        r[tuple(kk)] = v // c
    return r


def pgcd(p):
    g = 0
    for v in p.values(): g = gcd(g, abs(v))
    return g


_facts_divmod = {}
DIV = z3.Function('dv.div', z3.IntSort(), z3.IntSort(), z3.IntSort())
MOD = z3.Function('dv.mod', z3.IntSort(), z3.IntSort(), z3.IntSort())


def idiv(a, b):
    """floor division, b > 0"""
    cb = const_of(b)
    pa, pb = poly(a), poly(b)
    if cb is not None:
        if cb == 1: return norm(a)
        q = pdiv_const(pa, cb)
        if q is not None: return expr(q)
        # split off divisible part
        d = {m: v // cb for m, v in pa.items() if m != () and v % cb == 0}
        c0 = pa.get((), 0)
        if d or c0 // cb:
            d[()] = c0 // cb
            rest = {m: v for m, v in pa.items() if m != () and v % cb != 0}
            if c0 % cb: rest[()] = c0 % cb
            d = {m: v for m, v in d.items() if v}
            if not [m for m in rest if m != ()]:
                return expr(d)          # 0 <= rest < cb
            return iadd(expr(d), expr({(_atom_id(expr(rest) / z3.IntVal(cb)),): 1}))
        return expr({(_atom_id(expr(pa) / z3.IntVal(cb)),): 1})
    if len(pb) == 1:
        q = pdiv_mono(pa, pb)
        if q is not None: return expr(q)
    return DIV(norm(a), norm(b))


def imod(a, b):
    cb = const_of(b)
    if cb is not None:
        if cb == 1: return icst(0)
        pa = poly(a)
        rest = {m: v % cb for m, v in pa.items() if v % cb}
        if not [m for m in rest if m != ()]: return icst(rest.get((), 0))
        return expr({(_atom_id(expr(rest) % z3.IntVal(cb)),): 1})
    if len(poly(b)) == 1 and pdiv_mono(poly(a), poly(b)) is not None: return icst(0)
    return MOD(norm(a), norm(b))


def ilt(a, b):
    d = padd(poly(a), poly(b), -1)
    if not d: return F
    if len(d) == 1 and () in d: return T if d[()] < 0 else F
    return norm(a) < norm(b)


def ile(a, b):
    d = padd(poly(a), poly(b), -1)
    if not d: return T
    if len(d) == 1 and () in d: return T if d[()] <= 0 else F
    return norm(a) <= norm(b)


def ieq(a, b):
    d = padd(poly(a), poly(b), -1)
    if not d: return T
    if len(d) == 1 and () in d: return F
    return norm(a) == norm(b)


def iite(c, a, b):
    """If over ints keeping common factors of the difference"""
    if is_t(c): return norm(a)
    if is_f(c): return norm(b)
    d = padd(poly(a), poly(b), -1)
    if not d: return norm(a)
    g = pgcd(d)
    if g > 1:
        q = {m: v // g for m, v in d.items()}
        t = z3.If(c, expr(q), z3.IntVal(0))
        return iadd(b, imul(icst(g), t))
    # monomial common factor
    return expr({(_atom_id(z3.If(c, norm(a), norm(b))),): 1})


# ---------------------------------------------------------------- floats
class FV:
    """IEEE value abstracted to nan flag, inf flag and a real (sign of inf = sign of real)."""
    __slots__ = ('nan', 'inf', 'v')

    def __init__(self, nan, inf, v):
        self.nan, self.inf, self.v = nan, inf, v

    def parts(self): return (self.nan, self.inf, self.v)

    def __repr__(self): return 'FV(%s,%s,%s)' % (self.nan, self.inf, self.v)


def rv(x):
    f = Fraction(x)
    return z3.RealVal(f.numerator) if f.denominator == 1 else z3.Q(f.numerator, f.denominator)


def fconst(x):
    if isinstance(x, tuple):
        if x[0] == 'frac': return FV(F, F, rv(x[1]))
        if x[0] == 'inf': return FV(F, T, rv(x[1]))
        return FV(T, F, rv(0))
    x = float(x)
    if x != x: return FV(T, F, rv(0))
    if x in (float('inf'), float('-inf')): return FV(F, T, rv(1 if x > 0 else -1))
    return FV(F, F, rv(Fraction(x)))


ZERO = fconst(0.0)


def fin(a): return mk_not(mk_or(a.nan, a.inf))


def _simp_r(e):
    return e


def r_is(e, n):
    return z3.is_rational_value(e) and e.numerator_as_long() == n * e.denominator_as_long()


def rmul(a, b):
    if r_is(a, 0) or r_is(b, 0): return rv(0)
    if r_is(a, 1): return b
    if r_is(b, 1): return a
    return a * b


def radd(a, b):
    if r_is(a, 0): return b
    if r_is(b, 0): return a
    return a + b


def r_eq(a, b):
    if z3.is_rational_value(a) and z3.is_rational_value(b):
        return T if a.as_fraction() == b.as_fraction() else F
    if a.eq(b): return T
    return a == b


def r_lt(a, b):
    if z3.is_rational_value(a) and z3.is_rational_value(b):
        return T if a.as_fraction() < b.as_fraction() else F
    if a.eq(b): return F
    return a < b


def fadd(a, b):
    opp = mk_and(a.inf, b.inf, mk_not(r_eq_sign(a.v, b.v)))
    nan = mk_or(a.nan, b.nan, opp)
    inf = mk_or(a.inf, b.inf)
    v = mk_ite(a.inf, a.v, mk_ite(b.inf, b.v, radd(a.v, b.v)))
    return FV(nan, inf, v)


def r_eq_sign(a, b):
    return z3.And((a > 0) == (b > 0), (a < 0) == (b < 0))


def fneg(a): return FV(a.nan, a.inf, rv(-a.v.as_fraction()) if z3.is_rational_value(a.v) else -a.v)
def fsub(a, b):
    if r_is(a.v, 0) and is_f(a.nan) and is_f(a.inf): return fneg(b)
    return fadd(a, fneg(b))


def fmul(a, b):
    nan = mk_or(a.nan, b.nan, mk_and(a.inf, mk_not(b.inf), r_eq(b.v, rv(0))), mk_and(b.inf, mk_not(a.inf), r_eq(a.v, rv(0))))
    inf = mk_or(a.inf, b.inf)
    return FV(nan, inf, rmul(a.v, b.v))


def fdiv(a, b):
    """x/0 is inf with the sign of x, sign of zero ignored; 0/0 nan; x/inf = 0"""
    bz = mk_and(r_eq(b.v, rv(0)), mk_not(b.inf))
    az = mk_and(r_eq(a.v, rv(0)), mk_not(a.inf))
    nan = mk_or(a.nan, b.nan, mk_and(a.inf, b.inf), mk_and(bz, az))
    inf = mk_or(a.inf, mk_and(bz, mk_not(az)))
    if is_f(bz):
        q = a.v / b.v if not r_is(b.v, 1) else a.v
        if r_is(a.v, 0): q = rv(0)
    else:
        q = mk_ite(bz, a.v, a.v / b.v)
    v = mk_ite(b.inf, rv(0), q)
    return FV(nan, inf, v)


def fite(c, a, b):
    return FV(mk_ite(c, a.nan, b.nan), mk_ite(c, a.inf, b.inf), mk_ite(c, a.v, b.v))


def fabs_(a):
    if z3.is_rational_value(a.v): return FV(a.nan, a.inf, rv(abs(a.v.as_fraction())))
    return FV(a.nan, a.inf, z3.If(a.v >= 0, a.v, -a.v))


def flt(a, b):
    """ordered a<b assuming neither is nan"""
    pa = mk_and(a.inf, r_lt(rv(0), a.v)); na = mk_and(a.inf, r_lt(a.v, rv(0)))
    pb = mk_and(b.inf, r_lt(rv(0), b.v)); nb = mk_and(b.inf, r_lt(b.v, rv(0)))
    return mk_or(mk_and(na, mk_not(nb)), mk_and(pb, mk_not(pa)), mk_and(mk_not(a.inf), mk_not(b.inf), r_lt(a.v, b.v)))


def feq(a, b):
    """equal assuming neither nan"""
    bi = mk_and(a.inf, b.inf, r_eq_sign(a.v, b.v)) if not (is_f(a.inf) or is_f(b.inf)) else F
    return mk_or(bi, mk_and(mk_not(a.inf), mk_not(b.inf), r_eq(a.v, b.v)))


def fcmp(pred, a, b):
    un = mk_or(a.nan, b.nan)
    if pred == 'true': return T
    if pred == 'false': return F
    if pred == 'ord': return mk_not(un)
    if pred == 'uno': return un
    o, base = pred[0], pred[1:]
    if base == 'eq': c = feq(a, b)
    elif base == 'ne': c = mk_not(feq(a, b))
    elif base == 'lt': c = flt(a, b)
    elif base == 'gt': c = flt(b, a)
    elif base == 'le': c = mk_not(flt(b, a))
    elif base == 'ge': c = mk_not(flt(a, b))
    else: raise ValueError(pred)
    return mk_and(mk_not(un), c) if o == 'o' else mk_or(un, c)


def same_fv(a, b):
    """identical as values (nan == nan; inf with same sign; equal reals)"""
    return mk_or(mk_and(a.nan, b.nan),
                 mk_and(mk_not(a.nan), mk_not(b.nan), feq(a, b)))


# ---------------------------------------------------------------- pointers
class Ptr:
    __slots__ = ('reg', 'fam', 'off')

    def __init__(self, reg, fam, off):
        self.reg, self.fam, self.off = reg, tuple(fam), off

    def __repr__(self): return 'Ptr(%s%s+%s)' % (self.reg, list(self.fam), self.off)

    def add(self, o): return Ptr(self.reg, self.fam, iadd(self.off, o))


NULL = Ptr('NULL', (), icst(0))


class Choice:
    """list of (cond, Ptr); conditions mutually exclusive and exhaustive under the path condition"""
    __slots__ = ('alts',)

    def __init__(self, alts): self.alts = alts

    def __repr__(self): return 'Choice(%s)' % self.alts


def alts(p):
    return p.alts if isinstance(p, Choice) else [(T, p)]


def mk_choice(al):
    out = []
    for c, p in al:
        if is_f(c): continue
        for i, (c2, q) in enumerate(out):
            if q.reg == p.reg and len(q.fam) == len(p.fam) and all(x.eq(y) for x, y in zip(q.fam, p.fam)):
                out[i] = (mk_or(c2, c), Ptr(q.reg, q.fam, iite(c, p.off, q.off)))
                break
        else:
            out.append((c, p))
    if len(out) == 1: return out[0][1]
    return Choice(out)


def pite(c, a, b):
    if is_t(c): return a
    if is_f(c): return b
    return mk_choice([(mk_and(c, x), p) for x, p in alts(a)] + [(mk_and(mk_not(c), x), p) for x, p in alts(b)])


class Agg:
    """first-class aggregate (struct/array value)"""
    __slots__ = ('vals',)

    def __init__(self, vals): self.vals = list(vals)


class Undef:
    def __repr__(self): return 'undef'


UNDEF = Undef()


def vite(c, a, b):
    """If over any value kind"""
    if is_t(c): return a
    if is_f(c): return b
    if isinstance(a, Undef): return b
    if isinstance(b, Undef): return a
    if isinstance(a, FV): return fite(c, a, b)
    if isinstance(a, (Ptr, Choice)): return pite(c, a, b)
    if isinstance(a, Agg): return Agg([vite(c, x, y) for x, y in zip(a.vals, b.vals)])
    if z3.is_int(a): return iite(c, a, b)
    return mk_ite(c, a, b)


def same_val(a, b):
    """formula: equal values (pointers: same region required)"""
    if isinstance(a, FV): return same_fv(a, b)
    if isinstance(a, (Ptr, Choice)):
        cs = []
        for c1, p in alts(a):
            for c2, q in alts(b):
                if p.reg == q.reg:
                    cs.append(mk_and(c1, c2, ieq(p.off, q.off), *[ieq(x, y) for x, y in zip(p.fam, q.fam)]))
        return mk_or(*cs) if cs else F
    if isinstance(a, Agg): return mk_and(*[same_val(x, y) for x, y in zip(a.vals, b.vals)])
    if z3.is_int(a): return ieq(a, b)
    if z3.is_bool(a): return mk_ite(a, b, mk_not(b))
    if a.eq(b): return T
    return a == b


def subst(x, pairs):
    """substitute z3 consts in any value"""
    if not pairs or isinstance(x, Undef) or x is None: return x
    if isinstance(x, FV): return FV(*[subst(p, pairs) for p in x.parts()])
    if isinstance(x, Ptr): return Ptr(x.reg, [subst(f, pairs) for f in x.fam], subst(x.off, pairs))
    if isinstance(x, Choice): return mk_choice([(subst(c, pairs), subst(p, pairs)) for c, p in x.alts])
    if isinstance(x, Agg): return Agg([subst(v, pairs) for v in x.vals])
    r = z3.substitute(x, *pairs)
    _keep.append(r)
    if z3.is_int(r): return norm(r)
    return r


_cc = {}


def consts_in(e):
    """ids of uninterpreted 0-ary consts in z3 expr"""
    i = e.get_id()
    r = _cc.get(i)
    if r is not None: return r
    # iterative post-order
    stack = [(e, False)]
    while stack:
        x, done = stack.pop()
        xi = x.get_id()
        if xi in _cc: continue
        if done or x.num_args() == 0:
            s = set()
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: s.add(xi)
            else:
                for c in x.children(): s |= _cc[c.get_id()]
            _cc[xi] = frozenset(s); _keep.append(x)
        else:
            stack.append((x, True))
            for c in x.children(): stack.append((c, False))
    return _cc[i]


def val_consts(x):
    if isinstance(x, FV): return consts_in(x.nan) | consts_in(x.inf) | consts_in(x.v)
    if isinstance(x, Ptr):
        s = consts_in(x.off)
        for f in x.fam: s |= consts_in(f)
        return s
    if isinstance(x, Choice):
        s = frozenset()
        for c, p in x.alts: s |= consts_in(c) | val_consts(p)
        return s
    if isinstance(x, Agg):
        s = frozenset()
        for v in x.vals: s |= val_consts(v)
        return s
    if isinstance(x, Undef) or x is None: return frozenset()
    return consts_in(x)


_apps = {}


def apps_in(e):
    """list of uninterpreted applications with arguments in expr (unique)"""
    seen, out, stack = set(), [], [e]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.append(x)
        stack.extend(x.children())
    return out
