"""Decide a formula with non-linear products by incremental linearization.

Products of two non-constant terms and quotients become uninterpreted functions; a model of the abstraction that does
not multiply correctly is excluded by instances of valid lemmas (sign, units, monotonicity, values).  'unsat' is sound:
only valid formulas are added.  'sat' is returned only for a model in which every product and quotient is exact."""
import time, z3

_C, _KEEP = {}, []
_U = {}


def num(x): return z3.is_rational_value(x) or z3.is_int_value(x)


def uf(name, sort):
    k = (name, sort.kind())
    if k not in _U: _U[k] = z3.Function('%s!%d' % (name, sort.kind()), sort, sort, sort)
    return _U[k]


def mul2(a, b):
    if a.get_id() > b.get_id(): a, b = b, a
    r = uf('nlmul', a.sort())(a, b)
    _KEEP.append(r)
    return r


def ab(f):
    """abstraction of f"""
    st = [f]
    while st:
        x = st[-1]
        i = x.get_id()
        if i in _C: st.pop(); continue
        todo = [c for c in x.children() if c.get_id() not in _C]
        if todo: st.extend(todo); continue
        st.pop()
        if x.num_args() == 0: r = x
        else:
            ch = [_C[c.get_id()] for c in x.children()]
            k = x.decl().kind()
            if k == z3.Z3_OP_MUL and sum(not num(c) for c in ch) > 1:
                ns = sorted((c for c in ch if not num(c)), key=lambda c: c.get_id())
                r = ns[0]
                for c in ns[1:]: r = mul2(r, c)
                for c in ch:
                    if num(c): r = c * r
            elif k == z3.Z3_OP_DIV and not num(ch[1]): r = uf('nldiv', x.sort())(*ch)
            else: r = z3.substitute(x, *[(a, b) for a, b in zip(x.children(), ch)]) if any(not a.eq(b) for a, b in zip(x.children(), ch)) else x
            if k in (z3.Z3_OP_MUL, z3.Z3_OP_ADD, z3.Z3_OP_AND, z3.Z3_OP_OR) and False: pass
        _C[i] = r
        _KEEP.append((x, r))
    return _C[f.get_id()]


def apps(fs):
    ds = {d.get_id(): k for k, d in _U.items()}
    seen, out, st = set(), [], list(fs)
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().get_id() in ds: out.append((ds[x.decl().get_id()][0], x))
        st.extend(x.children())
    return out


def val(m, t):
    v = m.eval(t, model_completion=True)
    if z3.is_int_value(v): return v.as_long()
    if z3.is_rational_value(v): return v.as_fraction()
    return None


def nlits(a, like):
    from fractions import Fraction
    if isinstance(a, int) and z3.is_int(like): return z3.IntVal(a)
    a = Fraction(a)
    return z3.Q(a.numerator, a.denominator)


def decide(forms, timeout, rounds=40):
    """'unsat' | 'sat' | 'unknown', model"""
    fs = [ab(f) for f in forms]
    s = z3.SimpleSolver()
    s.add(*fs)
    ts = apps(fs)
    seen = {t.get_id() for _, t in ts}
    done = set()
    end = time.time() + timeout / 1000
    for rnd in range(rounds):
        left = end - time.time()
        if left <= 0.02: return 'unknown', None
        s.set('timeout', int(left * 1000))
        r = s.check()
        if r == z3.unsat: return 'unsat', None
        if r != z3.sat: return 'unknown', None
        m = s.model()
        new = []

        def lemma(key, f):
            if key in done: return
            if not z3.is_false(m.eval(f, model_completion=True)): return
            done.add(key)
            new.append(f)
        bad = []
        V = {}
        for k, t in ts:
            a, b = t.arg(0), t.arg(1)
            va, vb, vt = val(m, a), val(m, b), val(m, t)
            if None in (va, vb, vt): return 'unknown', None
            V[t.get_id()] = (va, vb, vt)
            if k == 'nlmul' and va * vb != vt or k == 'nldiv' and vb != 0 and va != vt * vb: bad.append((k, t))
        if not bad: return 'sat', m
        for k, t in bad:
            a, b, i = t.arg(0), t.arg(1), t.get_id()
            va, vb, vt = V[i]
            isint = z3.is_int(t)
            if k == 'nldiv':
                p = mul2(t, b)
                lemma((i, 'd'), z3.Implies(b != 0, p == a))
                if p.get_id() not in seen:
                    seen.add(p.get_id()); ts.append(('nlmul', p))
                lemma((i, 'ds'), z3.Implies(b > 0, z3.And((t > 0) == (a > 0), (t < 0) == (a < 0))))
                if a.eq(b): lemma((i, 'd1'), z3.Implies(b != 0, t == 1))
                if not new: lemma((i, 'dv', vb), z3.Implies(z3.And(b == nlits(vb, b)), t * nlits(vb, t) == a))
                continue
            lemma((i, 'z'), (t == 0) == z3.Or(a == 0, b == 0))
            lemma((i, 's'), z3.And((t > 0) == z3.Or(z3.And(a > 0, b > 0), z3.And(a < 0, b < 0))))
            for x, y, n in ((a, b, 'a'), (b, a, 'b')):
                lemma((i, 'u' + n), z3.And(z3.Implies(x == 1, t == y), z3.Implies(x == -1, t == -y)))
                if isint: lemma((i, 'i' + n), z3.Implies(z3.And(x >= 1, y >= 0), t >= y))
        # equal factors, in any order
        bucket = {}
        for k, t in ts:
            if k == 'nlmul':
                va, vb, vt = V[t.get_id()] if t.get_id() in V else (None,) * 3
                if va is None: continue
                bucket.setdefault((min(va, vb), max(va, vb), z3.is_int(t)), []).append((t, vt))
        for g in bucket.values():
            if len(g) < 2 or len(new) > 80: continue
            t1, v1 = g[0]
            for t2, v2 in g[1:]:
                if v1 == v2: continue
                lemma((t1.get_id(), t2.get_id(), 'c'), z3.Implies(z3.Or(z3.And(t1.arg(0) == t2.arg(0), t1.arg(1) == t2.arg(1)), z3.And(t1.arg(0) == t2.arg(1), t1.arg(1) == t2.arg(0))), t1 == t2))
        # pairs with a common factor
        muls = [t for k, t in ts if k == 'nlmul']
        byf = {}
        for t in muls:
            for f, o in ((t.arg(0), t.arg(1)), (t.arg(1), t.arg(0))):
                byf.setdefault(f.get_id(), []).append((f, o, t))
        badids = {t.get_id() for _, t in bad}
        for f, grp in ((g[0][0], g) for g in byf.values()):
            if len(grp) < 2 or len(new) > 60: continue
            for x in range(len(grp)):
                for y in range(len(grp)):
                    if x == y: continue
                    (_, o1, t1), (_, o2, t2) = grp[x], grp[y]
                    if t1.get_id() not in badids and t2.get_id() not in badids: continue
                    one = f if z3.is_int(f) else nlits(0, f)
                    if z3.is_int(f):
                        lemma((t1.get_id(), t2.get_id(), 'm'), z3.Implies(z3.And(f > 0, o1 < o2), t1 + f <= t2))
                    else: lemma((t1.get_id(), t2.get_id(), 'm'), z3.Implies(z3.And(f > 0, o1 < o2), t1 < t2))
                    lemma((t1.get_id(), t2.get_id(), 'e'), z3.Implies(o1 == o2, t1 == t2))
                    v1, v2 = val(m, o1), val(m, o2)
                    d = v2 - v1
                    if d != 0 and abs(d) <= 4: lemma((t1.get_id(), t2.get_id(), d), z3.Implies(o2 == o1 + nlits(d, o1), t2 == t1 + nlits(d, f) * f))
        if not new or rnd > 8:
            for k, t in bad:
                if k != 'nlmul': continue
                a, b, i = t.arg(0), t.arg(1), t.get_id()
                va, vb, vt = V[i]
                lemma((i, 'va', va), z3.Implies(a == nlits(va, a), t == nlits(va, a) * b))
        if not new: return 'unknown', None
        for t in apps(new):
            if t[1].get_id() not in seen:
                seen.add(t[1].get_id()); ts.append(t)
        s.add(*new)
    return 'unknown', None
