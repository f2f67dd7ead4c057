"""C12: WeightBlockEncoder (weights share the minimum over the polarizations)."""
from lib import *
import vectors, buffer
from buffer import Lay, init
from quant import const_ret

FLAGS = ['-fno-access-control']
KEEP = vectors.KEEP


def driver():
    out = buffer.driver().split('using B_cf')[0].replace('#include "@REPO@/timeblockbuffer.h"', '#include "@REPO@/weightblockencoder.h"')
    out += '''using B_f = TimeBlockBuffer<float>;
using W = WeightBlockEncoder;
'''
    for i in range(7): out += 'extern "C" size_t vf_off%d_f() { return VfOff<B_f>::get(%d); }\n' % (i, i)
    for n, f in (('pol', '_nPolarizations'), ('chan', '_nChannels'), ('quant', '_quantCount'), ('max', '_decodeMaxValue')):
        out += 'extern "C" size_t vf_w_%s() { return __builtin_offsetof(W, %s); }\n' % (n, f)
    return out + '''
extern "C" void vf_wenc(const W* w, B_f* b, float* meta, unsigned* sym) { w->Encode(*b, meta, sym); }
extern "C" void vf_wdec(const W* w, B_f* b, const unsigned* sym, size_t row) { w->Decode(*b, sym, row); }
extern "C" void vf_winit(W* w, const float* meta) { w->InitializeDecode(meta); }
extern "C" size_t vf_wsyms(const W* w, size_t rows) { return w->SymbolCount(rows); }
extern "C" size_t vf_wmeta(const W* w) { return w->MetaDataFloatCount(); }
'''


def encoder(p, mod, P, C, Q, M=None):
    o = {n: const_ret(mod, '@vf_w_' + n) for n in ('pol', 'chan', 'quant', 'max')}
    f = {o['pol']: P, o['chan']: C, o['quant']: Q}
    if M is not None: f[o['max']] = M
    p.region('W', None, fields=f)
    return Ptr('W', (), icst(0)), o


def quant(p):
    """QuantizationCount = 2^bits for 1..16 bits"""
    Q1 = p.nat('Q1', 1)
    p.requires(ile(Q1, icst(65535)))
    return iadd(Q1, icst(1)), Q1


def ghost(p, h):
    """mn(r,c): the minimum over the polarizations of sample c of row r; mx: the maximum of those over the block"""
    m = p.m
    I, R = z3.IntSort(), z3.RealSort()
    MN, AM = z3.Function('mn', I, I, R), z3.Function('am', I, I, I)
    s0 = init()
    r, i, c = z3.Int('gr'), z3.Int('gi'), z3.Int('gc')
    v = h.val(s0, r, i, 0)
    ok = mk_and(ile(icst(0), r), ilt(r, h.n), ile(icst(0), i), ilt(i, imul(h.C, h.P)))
    q = idiv(i, h.P)
    m.add_fact(m.val_decls(v), (r, i), mk_imp(ok, mk_and(fin(v), v.v >= 0, v.v >= MN(r, q), ile(icst(0), q), ilt(q, h.C))))
    am = AM(r, c)
    at = iadd(imul(c, h.P), am)
    inr = mk_and(ile(icst(0), r), ilt(r, h.n), ile(icst(0), c), ilt(c, h.C))
    w = h.val(s0, r, at, 0)
    # MX bounds every minimum and is one of them (or zero)
    MX = z3.Real('mx')
    rx, cx = p.nat('rx'), p.nat('cx')
    m.add_fact([MN], (r, c), mk_imp(inr, mk_and(ile(icst(0), am), ilt(am, h.P), MN(r, c) == w.v, MN(r, c) <= MX)))
    p.requires(MX >= 0)
    p.requires(mk_or(MX == 0, mk_and(ilt(rx, h.n), ilt(cx, h.C), MX == MN(rx, cx))))

    def tmpl(m, lc):
        out = []
        for i, hv in enumerate(lc.hvals):
            if not isinstance(hv, FV): continue
            v0 = lc.init[i]
            g = lambda vw, i=i: vw.phis[i]
            # running minimum of one sample
            for a in apps_of(v0, v.v.decl()) if isinstance(v0, FV) else []:
                rr, cc = a.arg(0), idiv(a.arg(1), h.P)
                out.append(vc.Cand('ge-min', ('phi', i), lambda vw, K, x, g=g, rr=rr, cc=cc: g(vw).v >= MN(rr, cc)))
                for d in (0, 1, 2):
                    out.append(vc.Cand('le-min%d' % d, ('phi', i), lambda vw, K, x, g=g, rr=rr, cc=cc, d=d: mk_imp(ilt(AM(rr, cc), iadd(K, icst(d))), g(vw).v <= MN(rr, cc))))
            # running maximum over the block
            out.append(vc.Cand('le-max', ('phi', i), lambda vw, K, x, g=g: g(vw).v <= MX))
            if len(lc.ks) == 1:
                r0 = lc.ks[0]
                out.append(vc.Cand('covers', ('phi', i), lambda vw, K, x, g=g: mk_imp(mk_or(ilt(rx, r0), mk_and(ieq(rx, r0), ilt(cx, K))), g(vw).v >= MX)))
            if len(lc.ks) == 0:
                out.append(vc.Cand('covers', ('phi', i), lambda vw, K, x, g=g: mk_imp(ilt(rx, K), g(vw).v >= MX)))
        return out
    m.templates.append(tmpl)
    return MN, MX, (rx, cx)


def apps_of(v, decl):
    return [a for a in vc.apps_in0(v.v) if a.decl().eq(decl)]


def encode(mod):
    p = Proof('Encode', mod, '@vf_wenc', 'WeightBlockEncoder::Encode')
    h = buffer.buffer(p, mod, 'f', size=lambda r: norm(imul(z3.Int('nChannels'), z3.Int('nPol'))))
    Q, Q1 = quant(p)
    this, o = encoder(p, mod, h.P, h.C, Q)
    MN, MX, wit = ghost(p, h)
    p.region('meta', 4, icst(1))
    p.region('sym', 4, imul(h.n, h.C))
    for x in (h.rows, h.vis, 'B', 'W'): p.m.read_only.add(x)
    p.run([this, h.this, Ptr('meta', (), icst(0)), Ptr('sym', (), icst(0))])
    st = p.state
    r, c = p.nat('r'), p.nat('c')
    M = p.cell('meta', 0, 'fp', (icst(0),))
    inr = mk_and(ilt(r, h.n), ilt(c, h.C))
    at = iadd(imul(r, h.C), c)
    s = p.m.get_cell(st, ('sym', 0), 'int').read((at,))
    mn = MN(r, c)
    H = [r, c, *wit]
    p.ensures('the block maximum is stored (1 for a block of zeros)', mk_and(fin(M), M.v == z3.If(MX == 0, rv(1), MX)), hints=H)
    q1 = z3.ToReal(Q1)
    x = mn * (q1 / M.v)
    sr = z3.ToReal(s)
    p.ensures('each symbol is the nearest step of the minimum over the polarizations', mk_imp(inr, mk_and(sr - x <= z3.Q(1, 2), x - sr <= z3.Q(1, 2))), hints=H)
    p.ensures('every symbol fits: at most the number of steps', mk_imp(inr, mk_and(s >= 0, s <= Q1)), hints=H)
    p.ensures('a zero weight gets symbol zero', mk_imp(mk_and(inr, mn == 0), s == 0), hints=H)
    p.ensures('the maximum gets the highest symbol', mk_imp(mk_and(inr, mn == M.v), s == Q1), hints=H)
    p.cover()
    return p.finish()


def decode(mod):
    p = Proof('Decode', mod, '@vf_wdec', 'WeightBlockEncoder::Decode')
    h = buffer.buffer(p, mod, 'f')
    Q, Q1 = quant(p)
    M = FV(F, F, z3.Real('M'))
    p.requires(M.v > 0)
    this, o = encoder(p, mod, h.P, h.C, Q, M)
    row = p.nat('row')
    p.requires(ilt(row, h.n))
    NS = p.nat('nSymRows', 1)
    p.requires(ilt(row, NS))
    p.region('sym', 4, imul(NS, h.C))
    for x in ('sym', 'W', 'B'): p.m.read_only.add(x)
    p.m.nonneg_names |= {'m0!sym!0'}
    s0 = init()
    p.run([this, h.this, Ptr('sym', (), icst(0)), row])
    st = p.state
    c, pol, r, i = p.nat('c'), p.nat('p'), p.nat('r'), p.nat('i')
    H = [c, pol, r, i, row]
    s = p.m.get_cell(s0, ('sym', 0), 'int').read((iadd(imul(row, h.C), c),))
    v = h.val(st, row, iadd(imul(c, h.P), pol), 0)
    inr = mk_and(ilt(c, h.C), ilt(pol, h.P))
    p.ensures('every polarization gets the step of the symbol', mk_imp(inr, mk_and(fin(v), v.v == z3.ToReal(s) * (M.v / z3.ToReal(Q1)))), hints=H)
    p.ensures('the row holds every sample', mk_imp(ilt(icst(0), h.C), ieq(h.SZ(st, row), imul(h.C, h.P))), hints=H)
    other = mk_and(ilt(r, h.n), mk_not(ieq(r, row)))
    p.ensures('other rows keep their size', mk_imp(other, ieq(h.SZ(st, r), h.size0(r))), hints=H)
    p.ensures('other rows keep their samples', mk_imp(mk_and(other, ilt(i, h.size0(r))), same_fv(h.val(st, r, i, 0), h.val(s0, r, i, 0))), hints=H)
    p.ensures('the number of rows stays', ieq(h.NR(st), h.n))
    p.cover()
    return p.finish()


def small(mod):
    out = Result('counts', 'WeightBlockEncoder::InitializeDecode, SymbolCount, MetaDataFloatCount')
    def merge(p):
        r = p.finish()
        out.obl += r.obl; out.functions |= r.functions; out.trusted |= r.trusted; out.assumptions |= r.assumptions
        for a, b in r.stats.items(): out.stats[a] = out.stats.get(a, 0) + b
    p = Proof('x', mod, '@vf_winit', 'WeightBlockEncoder::InitializeDecode')
    this, o = encoder(p, mod, p.nat('P', 1), p.nat('C', 1), p.nat('Q', 2))
    p.region('meta', 4, icst(1)); p.m.read_only.add('meta')
    p.run([this, Ptr('meta', (), icst(0))])
    p.ensures('the stored maximum is used for decoding', same_fv(p.cell('W', o['max'], 'fp', (icst(0),)), p.m.get_cell(init(), ('meta', 0), 'fp').read((icst(0),))))
    merge(p)
    p = Proof('x', mod, '@vf_wsyms', 'WeightBlockEncoder::SymbolCount')
    C, n = p.nat('C', 1), p.nat('n')
    this, o = encoder(p, mod, p.nat('P', 1), C, p.nat('Q', 2))
    p.run([this, n])
    p.ensures('one symbol per sample', ieq(p.ret, imul(n, C)))
    merge(p)
    p = Proof('x', mod, '@vf_wmeta', 'WeightBlockEncoder::MetaDataFloatCount')
    this, o = encoder(p, mod, p.nat('P', 1), p.nat('C', 1), p.nat('Q', 2))
    p.run([this])
    p.ensures('one scale factor', ieq(p.ret, icst(1)))
    merge(p)
    return out


def lemma(mod):
    """the postconditions of Encode and Decode give the property"""
    res = Result('round-trip', 'lemma over the contracts of Encode and Decode')
    m = vc.Machine(mod)
    mn, M, d = z3.Reals('mn M d')
    s, Q1 = z3.Ints('s Q1')
    q = z3.ToReal(Q1)
    x = mn * (q / M)
    pre = (M > 0, mn >= 0, mn <= M, Q1 >= 1, z3.ToReal(s) - x <= z3.Q(1, 2), x - z3.ToReal(s) <= z3.Q(1, 2), d == z3.ToReal(s) * (M / q))
    for name, g, extra in (('off by at most half a step', z3.And(d - mn <= M / (2 * q), mn - d <= M / (2 * q)), ()),
                           ('a zero weight stays zero', d == 0, (s == 0,)), ('the maximum is reproduced', d == M, (s == Q1,))):
        r, mdl = m.prove(pre + extra, g)
        res.add(name, 'lemma', r)
    return res


def units(pid):
    return [('Encode', 'WeightBlockEncoder::Encode', encode), ('Decode', 'WeightBlockEncoder::Decode', decode),
            ('counts', 'WeightBlockEncoder', small), ('round-trip', 'lemma', lemma)]
