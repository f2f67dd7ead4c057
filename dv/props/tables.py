"""C07: the quantization tables built by the constructors of StochasticEncoder<float>."""
import re
from lib import *
from fractions import Fraction
import quant
from quant import FMAX

FLAGS = ['-fno-access-control']
CTORS = ('Gaussian', 'Uniform', 'StudentT', 'TruncatedGaussian')


def driver():
    return '''#include <cstddef>
#include <random>
#include <algorithm>
#include "@REPO@/stochasticencoder.cc"
using SE = dyscostman::StochasticEncoder<float>;
using dyscostman::Dictionary;
extern "C" void vf_Gaussian(SE* e, size_t q, double p, float s) { new (e) SE(q, s, true); }
extern "C" void vf_Uniform(SE* e, size_t q, double p, float s) { new (e) SE(q, s, false); }
extern "C" void vf_StudentT(SE* e, size_t q, double nu, double rms) { new (e) SE(SE::StudentTEncoder(q, nu, rms)); }
extern "C" void vf_TruncatedGaussian(SE* e, size_t q, double trunc, double rms) { new (e) SE(SE::TruncatedGausEncoder(q, trunc, rms)); }
extern "C" long double vf_inv(long double c, long double err) { return SE::invCumulative(c, err); }
extern "C" size_t vf_off_enc() { return __builtin_offsetof(SE, _encDictionary) + __builtin_offsetof(Dictionary, _values); }
extern "C" size_t vf_off_dec() { return __builtin_offsetof(SE, _decDictionary) + __builtin_offsetof(Dictionary, _values); }
'''


R = z3.RealSort()
INV = z3.Function('invCumulative', R, R)
TINV = z3.Function('tdist_Pinv', R, R, R)
GINV = z3.Function('gaussian_Pinv', R, R, R)
GP = z3.Function('gaussian_P', R, R, R)


def uf(f, n):
    def h(m, name, args, I, st, path): return st, FV(F, F, f(*[a.v for a in args[:n]]))
    return h


def contracts(p):
    import externs
    p.m.contracts += [(re.compile(r'::invCumulative\('), uf(INV, 1)), (re.compile(r'^gsl_cdf_tdist_Pinv$'), uf(TINV, 2)),
                      (re.compile(r'^gsl_cdf_gaussian_Pinv$'), uf(GINV, 2)), (re.compile(r'^gsl_cdf_gaussian_P$'), uf(GP, 2))]


def inverse_cdf(f, xs, ex=()):
    """assumed contract of an inverse cumulative distribution function symmetric around zero, at the points xs"""
    out = []
    for a in xs:
        out.append(z3.Implies(z3.And(a > 0, a < 1), f(1 - a, *ex) == -f(a, *ex)))
        for b in xs:
            if a is not b: out.append(z3.Implies(z3.And(0 < a, a < b, b < 1), f(a, *ex) < f(b, *ex)))
    return out


def ctor(mod, kind):
    p = Proof('table-' + kind, mod, '@vf_' + kind, {'Gaussian': 'StochasticEncoder(quantCount, stddev, true)', 'Uniform': 'StochasticEncoder(quantCount, stddev, false)',
                                                   'StudentT': 'StudentTEncoder/initializeStudentT', 'TruncatedGaussian': 'TruncatedGausEncoder/initializeTruncatedGaussian'}[kind])
    m = p.m
    L = p.nat('L', 2)
    p.requires(L <= 65535)
    s, par = z3.Real('s'), z3.Real('par')
    p.requires(s > 0); p.requires(par > 0); p.requires(s <= 10 ** 30)
    p.region('E', None)
    contracts(p)
    cut = GP(-par, 1)
    if kind == 'TruncatedGaussian':
        p.requires(z3.And(0 < cut, cut < rv(Fraction(1, 2))))
    p.run([Ptr('E', (), icst(0)), iadd(L, icst(1)), FV(F, F, par), FV(F, F, s)])
    fields = {}
    for nme, off in (('enc', quant.const_ret(mod, '@vf_off_enc')), ('dec', quant.const_ret(mod, '@vf_off_dec'))):
        b, e, c = [m.get_cell(p.state, ('E', off + d), 'ptr').read((icst(0),)) for d in (0, 8, 16)]
        if not all(isinstance(x, Ptr) for x in (b, e, c)): raise Unsupported('dictionary pointers')
        same = e.reg == b.reg and c.reg == b.reg
        reg = m.regions[b.reg]
        n = L if nme == 'enc' else iadd(L, icst(1))
        p.ensures('%s: size() is quantCount - 1' % nme, mk_and(T if same else F, ieq(isub(e.off, b.off), imul(icst(4), L))))
        p.ensures('%s: capacity() holds all entries%s' % (nme, '' if nme == 'enc' else ' and the reserved one'),
                  mk_and(ile(imul(icst(4), n), isub(c.off, b.off)), ile(isub(c.off, b.off), imul(icst(4), reg.length))))
        fields[nme] = b
    def rd(which):
        b = fields[which]
        def f(i):
            key, idx = m.cell_key(b.add(imul(icst(4), i)), 4)
            return m.get_cell(p.state, key, 'fp').read(idx)
        return f
    enc, dec = rd('enc'), rd('dec')
    i = p.nat('i')
    i1, last, mir = iadd(i, icst(1)), isub(L, icst(1)), isub(isub(L, icst(1)), i)
    rl = z3.ToReal(L)
    def point(x): return x / rl
    half = rv(Fraction(1, 2))
    pts = {'mid': point(z3.ToReal(i) + half), 'bnd': point(z3.ToReal(i1)), 'nxt': point(z3.ToReal(i1) + half), 'mir': point(z3.ToReal(mir) + half),
           'mirb': point(z3.ToReal(isub(mir, icst(0)))) }
    ax = []
    if kind == 'Gaussian': f, ex, tr = INV, (), (lambda x: x)
    elif kind == 'StudentT': f, ex, tr = TINV, (par,), (lambda x: x)
    elif kind == 'TruncatedGaussian': f, ex, tr = GINV, (s,), (lambda x: x * (1 - 2 * cut) + cut)
    if kind != 'Uniform':
        xs = [tr(pts[k]) for k in ('mid', 'bnd', 'nxt', 'mir')]
        ax = inverse_cdf(f, xs, ex)
        # facts about the arguments that the solver need not rediscover: the points are in (0,1) and ordered
    h = [i, i1, mir, L, last]
    inr = mk_and(ilt(i, L))
    inn = mk_and(ilt(i1, L))
    ar = []
    def lemma(name, goal, pre):
        p.ensures('lemma: ' + name, goal, pre=pre, timeout=60000)
        ar.append(goal if not pre else z3.Implies(z3.And(*pre), goal))
    lemma('points in range', z3.And(0 < pts['mid'], pts['mid'] < 1, pts['mir'] == 1 - pts['mid']), (inr,))
    lemma('points in order', z3.And(pts['mid'] < pts['bnd'], pts['bnd'] < pts['nxt'], pts['nxt'] < 1), (inn,))
    if kind == 'TruncatedGaussian':
        lemma('truncated points in range', z3.And(0 < tr(pts['mid']), tr(pts['mid']) < 1, tr(pts['mir']) == 1 - tr(pts['mid'])), (inr,))
        lemma('truncated points in order', z3.And(tr(pts['mid']) < tr(pts['bnd']), tr(pts['bnd']) < tr(pts['nxt']), tr(pts['nxt']) < 1), (inn,))
    pre = tuple(ax + ar)
    tmo = 60000
    p.ensures('levels are finite', mk_imp(inr, fin(dec(i))), hints=h, pre=pre)
    p.ensures('boundaries are finite', mk_imp(inr, fin(enc(i))), hints=h, pre=pre)
    p.ensures('each boundary is above the level on its left', mk_imp(inn, dec(i).v < enc(i).v), hints=h, pre=pre, timeout=tmo)
    p.ensures('each boundary is below the level on its right', mk_imp(inn, enc(i).v < dec(i1).v), hints=h, pre=pre, timeout=tmo)
    p.ensures('levels are symmetric around zero', mk_imp(inr, dec(i).v == -dec(mir).v), hints=h, pre=pre, timeout=tmo)
    p.ensures('the last boundary is the largest finite value', mk_and(fin(enc(last)), enc(last).v == rv(FMAX)), hints=h)
    p.ensures('the reserved entry is NaN', dec(L).nan, hints=h)
    p.cover()
    r = p.finish()
    r.trusted |= {'invCumulative / GSL inverse cumulative distributions: finite, strictly increasing on (0,1), f(1-c) = -f(c) (the latter is proved for invCumulative)'}
    r.assumptions |= {'rounding of the tables to single precision keeps their order (checked natively, bounded: every configurable bit rate)', 'the outermost level is below the largest finite value'}
    return r


def inverse(mod):
    p = Proof('invCumulative', mod, '@vf_inv', 'StochasticEncoder::invCumulative')
    c, e = z3.Real('c'), z3.Real('err')
    p.requires(z3.And(c > 0, c < 1, e > 0))
    ERF = z3.Function('erf', R, R)
    depth = []
    def rec(m, name, args, I, st, path):
        # the outermost call is the function under contract; a recursive one is replaced by its contract
        if not depth:
            depth.append(1)
            return NotImplemented
        return st, FV(F, F, INV(args[0].v))
    p.m.contracts += [(re.compile(r'::invCumulative\('), rec), (re.compile(r'^gsl_sf_erf$'), uf(ERF, 1))]
    p.run([FV(F, F, c), FV(F, F, e)])
    half = rv(Fraction(1, 2))
    p.ensures('below one half: minus the value at 1 - c', z3.Implies(c < half, z3.And(fin(p.ret), p.ret.v == -INV(1 - c))))
    p.ensures('one half gives zero', z3.Implies(c == half, z3.And(fin(p.ret), p.ret.v == 0)))
    p.ensures('above one half: finite and positive', z3.Implies(c > half, z3.And(fin(p.ret), p.ret.v > 0)))
    p.cover()
    r = p.finish()
    r.trusted |= {'gsl_sf_erf returns a finite value'}
    return r


def units(pid):
    if pid != 'C07': return []
    return [('table-' + k, 'StochasticEncoder constructors', lambda m, k=k: ctor(m, k)) for k in CTORS] + [
        ('invCumulative', 'StochasticEncoder::invCumulative', lambda m: inverse(m)),
        ('level-to-itself', 'lemma', lambda m: quant.selfquant_lemma())]
