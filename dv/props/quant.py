"""C05, C06: StochasticEncoder<float>::Encode / EncodeWithDithering / Decode."""
from lib import *
from search import search_templates, power_axioms
from fractions import Fraction

FMAX = Fraction(2) ** 128 - Fraction(2) ** 104


def driver():
    return '''#include <cstddef>
#include <random>
#include <algorithm>
#include "@REPO@/stochasticencoder.h"
using SE = dyscostman::StochasticEncoder<float>;
using dyscostman::Dictionary;
extern "C" unsigned vf_encode(const SE* e, float v) { return e->Encode(v); }
extern "C" unsigned vf_dither(const SE* e, float v, unsigned d) { return e->EncodeWithDithering(v, d); }
extern "C" float vf_decode(const SE* e, unsigned s) { return e->Decode(s); }
extern "C" size_t vf_count(const SE* e) { return e->QuantizationCount(); }
extern "C" float vf_max(const SE* e) { return e->MaxQuantity(); }
extern "C" float vf_min(const SE* e) { return e->MinQuantity(); }
extern "C" size_t vf_off_enc() { return __builtin_offsetof(SE, _encDictionary) + __builtin_offsetof(Dictionary, _values); }
extern "C" size_t vf_off_dec() { return __builtin_offsetof(SE, _decDictionary) + __builtin_offsetof(Dictionary, _values); }
extern "C" unsigned vf_dmin() { return SE::GetDitherDistribution().min(); }
extern "C" unsigned vf_dmax() { return SE::GetDitherDistribution().max(); }
'''


FLAGS = ['-fno-access-control']


def const_ret(mod, fn):
    m = vc.Machine(mod)
    _, r = m.run_function(fn, [], vc.State((), {}, ()), 'c')
    c = const_of(r)
    if c is None: raise Unsupported('layout of ' + fn)
    return c


def vec_fields(off, reg, n, cap, elem):
    return {off: Ptr(reg, (), icst(0)), off + 8: Ptr(reg, (), imul(icst(elem), n)), off + 16: Ptr(reg, (), imul(icst(elem), cap))}


def table(p, tab, n, lastmax=False, reserve=False):
    """class invariant of a dictionary: n strictly increasing finite entries"""
    cell = p.m.get_cell(vc.State((), {}, ()), (tab, 0), 'fp')
    x, y = z3.Int('tx'), z3.Int('ty')
    a, b = cell.read((x,)), cell.read((y,))
    p.m.add_fact(p.m.val_decls(a), (x,), mk_imp(mk_and(ile(icst(0), x), ilt(x, n)), fin(a)))
    p.m.add_fact([a.v.decl()], (x,), mk_imp(mk_and(ile(icst(0), x), ilt(x, y), ilt(y, n)), a.v < b.v), (y,))
    p.m.add_fact([a.v.decl()], (x,), mk_imp(mk_and(ile(icst(0), y), ilt(y, x), ilt(x, n)), b.v < a.v), (y,))
    if lastmax: p.m.add_fact(p.m.val_decls(a), (x,), mk_imp(ieq(x, isub(n, icst(1))), a.v == rv(FMAX)))
    if reserve: p.m.add_fact(p.m.val_decls(a), (x,), mk_imp(ieq(x, n), a.nan))
    return lambda i: cell.read((i,))


def encoder(p, mod):
    """a StochasticEncoder that satisfies the class invariant established by its constructors (C07)"""
    L = p.nat('L', 2)               # number of levels, QuantizationCount() - 1
    p.region('enc', 4, L)
    p.region('dec', 4, iadd(L, icst(1)))     # one reserved entry behind the levels
    f = dict(vec_fields(const_ret(mod, '@vf_off_enc'), 'enc', L, L, 4))
    f.update(vec_fields(const_ret(mod, '@vf_off_dec'), 'dec', L, iadd(L, icst(1)), 4))
    p.region('E', None, fields=f)
    for r in ('enc', 'dec', 'E'): p.m.read_only.add(r)
    enc = table(p, 'enc', L, lastmax=True)
    dec = table(p, 'dec', L, reserve=True)
    return L, enc, dec


def value(p, name='v'):
    v = FV(z3.Bool(name + '.nan'), z3.Bool(name + '.inf'), z3.Real(name))
    p.m.globals.append(mk_imp(fin(v), z3.And(v.v <= rv(FMAX), v.v >= -rv(FMAX))))
    p.m.globals.append(mk_imp(mk_and(mk_not(v.nan), v.inf), v.v != 0))
    return v


E_ = Ptr('E', (), icst(0))


def encode(mod, pid):
    p = Proof('Encode', mod, '@vf_encode', 'StochasticEncoder<float>::Encode')
    L, enc, dec = encoder(p, mod)
    v = value(p)
    power_axioms(p.m); p.m.maxgen = 3
    p.m.templates += [search_templates('enc', L, v, enc)]
    p.run([E_, v])
    s = p.ret
    h = [s, isub(s, icst(1)), icst(0), isub(L, icst(1))]
    p.ensures('a finite value gets a valid level index', mk_imp(fin(v), mk_and(ile(icst(0), s), ilt(s, L))), hints=h)
    p.ensures('the boundary on the left is below the value', mk_imp(mk_and(fin(v), ilt(icst(0), s)), fcmp('olt', enc(isub(s, icst(1))), v)), hints=h)
    p.ensures('the boundary on the right is not below the value', mk_imp(fin(v), fcmp('oge', enc(s), v)), hints=h)
    p.ensures('a non-finite value gets the reserved symbol', mk_imp(mk_not(fin(v)), ieq(s, L)), hints=h)
    p.cover(); p.cover(pre=(mk_not(fin(v)),)); p.cover(pre=(fin(v),))
    return p.finish()


def dither(mod, pid):
    p = Proof('EncodeWithDithering', mod, '@vf_dither', 'StochasticEncoder<float>::EncodeWithDithering')
    L, enc, dec = encoder(p, mod)
    v = value(p)
    d = p.nat('d')
    p.requires(d < 2 ** 31)
    power_axioms(p.m); p.m.maxgen = 3
    p.m.templates += [search_templates('dec', L, v, dec)]
    p.run([E_, v, d])
    s = p.ret
    last = isub(L, icst(1))
    s1, sm = iadd(s, icst(1)), isub(s, icst(1))
    h = [s, s1, sm, icst(0), last]
    ok = fin(v)
    p.ensures('a finite value gets a valid level index', mk_imp(ok, mk_and(ile(icst(0), s), ilt(s, L))), hints=h)
    p.ensures('a non-finite value gets the reserved symbol', mk_imp(mk_not(ok), ieq(s, L)), hints=h)
    p.ensures('below the table: the lowest level', mk_imp(mk_and(ok, fcmp('ole', v, dec(icst(0)))), ieq(s, icst(0))), hints=h)
    p.ensures('above the table: the highest level', mk_imp(mk_and(ok, fcmp('oge', v, dec(last))), ieq(s, last)), hints=h)
    # bracketing: j is the interval [dec[j], dec[j+1]] that contains the value
    j = p.nat('j'); j1 = iadd(j, icst(1))
    hj = h + [j, j1]
    inside = mk_and(ok, ile(j1, last), fcmp('olt', dec(j), v), fcmp('ole', v, dec(j1)))
    pos = (v.v - dec(j).v) / (dec(j1).v - dec(j).v) * rv(2 ** 31)
    p.ensures('one of the two neighbours', mk_imp(inside, mk_or(ieq(s, j), ieq(s, j1))), hints=hj)
    p.ensures('the upper neighbour exactly for dither values below the relative position times 2^31',
              mk_imp(inside, (s == j1) == (z3.ToReal(d) < pos)), hints=hj, timeout=60000)
    p.ensures('a level is returned exactly', mk_imp(mk_and(inside, fcmp('oeq', v, dec(j1))), ieq(s, j1)), hints=hj, timeout=60000)
    p.cover(); p.cover(pre=(mk_not(ok),)); p.cover(pre=(inside,))
    return p.finish()


def decode(mod, pid):
    p = Proof('Decode', mod, '@vf_decode', 'StochasticEncoder<float>::Decode')
    L, enc, dec = encoder(p, mod)
    s = p.nat('s')
    p.requires(s <= L)
    p.run([E_, s])
    p.ensures('a level symbol decodes to its finite level', mk_imp(ilt(s, L), mk_and(fin(p.ret), same_fv(p.ret, dec(s)))), hints=[s])
    p.ensures('the reserved symbol decodes to NaN', mk_imp(ieq(s, L), p.ret.nan), hints=[s])
    p.cover()
    return p.finish()


def counts(mod, pid):
    p = Proof('QuantizationCount', mod, '@vf_count', 'StochasticEncoder<float>::QuantizationCount')
    L, enc, dec = encoder(p, mod)
    p.run([E_])
    p.ensures('one more than the number of levels', ieq(p.ret, iadd(L, icst(1))))
    p.cover()
    return p.finish()


def extreme(mod, pid, which):
    p = Proof(which, mod, '@vf_' + which, 'StochasticEncoder<float>::%sQuantity' % which.capitalize())
    L, enc, dec = encoder(p, mod)
    p.run([E_])
    i = isub(L, icst(1)) if which == 'max' else icst(0)
    p.ensures('is the %s level' % ('last' if which == 'max' else 'first'), same_fv(p.ret, dec(i)), hints=[i])
    p.cover()
    return p.finish()


def ditherrange(mod, pid):
    p = Proof('GetDitherDistribution', mod, '@vf_dmax', 'StochasticEncoder<float>::GetDitherDistribution')
    p.run([])
    p.ensures('largest dither value is 2^31 - 1', ieq(p.ret, icst(2 ** 31 - 1)))
    q = Proof('GetDitherDistribution', mod, '@vf_dmin', 'StochasticEncoder<float>::GetDitherDistribution')
    q.run([])
    p.res.obl += []
    q.ensures('smallest dither value is 0', ieq(q.ret, icst(0)))
    p.res.obl += q.finish().obl
    p.cover()
    return p.finish()


def selfquant_lemma():
    """interleaved tables (C07) and the postcondition of Encode: each level is quantized to itself"""
    r = Result('level-to-itself', 'lemma over the contracts of Encode and of the table constructors')
    s, k, L = z3.Ints('s k L')
    enc, dec = z3.Function('e', z3.IntSort(), z3.RealSort()), z3.Function('d', z3.IntSort(), z3.RealSort())
    v = dec(k)
    S = z3.Solver()
    S.add(L >= 2, 0 <= k, k < L, 0 <= s, s < L)
    # Encode
    S.add(z3.Implies(s > 0, enc(s - 1) < v), enc(s) >= v)
    # sorted boundaries and interleaving at the indices that matter
    x, y = z3.Ints('x y')
    S.add(z3.ForAll([x, y], z3.Implies(z3.And(0 <= x, x < y, y < L), enc(x) < enc(y))))
    S.add(z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < L), z3.And(z3.Implies(x > 0, enc(x - 1) < dec(x)), dec(x) < enc(x)))))
    S.add(s != k)
    t = time.time(); q = S.check()
    r.add('Encode(level k) = k', 'lemma', 'proved' if q == z3.unsat else 'failed' if q == z3.sat else 'unknown', round(time.time() - t, 3))
    return r


def units(pid):
    if pid == 'C05':
        return [('Encode', 'StochasticEncoder::Encode', lambda m: encode(m, pid)), ('Decode', 'StochasticEncoder::Decode', lambda m: decode(m, pid)),
                ('QuantizationCount', 'StochasticEncoder::QuantizationCount', lambda m: counts(m, pid))]
    if pid == 'C06':
        return [('EncodeWithDithering', 'StochasticEncoder::EncodeWithDithering', lambda m: dither(m, pid)),
                ('GetDitherDistribution', 'StochasticEncoder::GetDitherDistribution', lambda m: ditherrange(m, pid))]
    return []
