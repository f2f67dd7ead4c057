"""C08-C11: the block encoders (row, row-channel) over the contracts of ConvertVector, Encode and EncodeWithDithering."""
from lib import *
import vectors, buffer, quant
from vectors import VType, complex_t, scalar_t, attach, vec_init, row_sizes
from buffer import Lay, init
from quant import const_ret, E_

FLAGS = ['-fno-access-control']
KEEP = vectors.KEEP + [r'StochasticEncoder<float>::Encode(WithDithering)?\(', r'TimeBlockBuffer<.*>::ConvertVector<', r'uniform_int_distribution<unsigned int>::operator\(\)',
                       r'aocommon::UVector<.*>::(assign|resize|UVector|~UVector)\b', r'RFTimeBlockEncoder::maximize(Rows|Channels)\(']


def driver():
    out = '''#include <cstddef>
#include <cstring>
#include <algorithm>
#include <random>
#include "@REPO@/stochasticencoder.h"
''' + buffer.driver().split('template <typename B> struct VfOff')[0]
    out += 'template <typename B> struct VfOff' + buffer.driver().split('template <typename B> struct VfOff')[1].split('using B_cf')[0]
    out += '''using B_cf = TimeBlockBuffer<std::complex<float>>;
using B_cd = TimeBlockBuffer<std::complex<double>>;
'''
    for k in ('cf', 'cd'):
        for i in range(7): out += 'extern "C" size_t vf_off%d_%s() { return VfOff<B_%s>::get(%d); }\n' % (i, k, k, i)
    out += '''
using SE = dyscostman::StochasticEncoder<float>;
using dyscostman::Dictionary;
extern "C" size_t vf_off_enc() { return __builtin_offsetof(SE, _encDictionary) + __builtin_offsetof(Dictionary, _values); }
extern "C" size_t vf_off_dec() { return __builtin_offsetof(SE, _decDictionary) + __builtin_offsetof(Dictionary, _values); }
#include "@REPO@/rowtimeblockencoder.cc"
#include "@REPO@/rftimeblockencoder.cc"
extern "C" void vf_rf_mrows(const RFTimeBlockEncoder* e, std::vector<RFTimeBlockEncoder::DBufferRow>* data, float* meta, double ml) { e->maximizeRows(*data, meta, ml); }
extern "C" void vf_rf_mchan(const RFTimeBlockEncoder* e, std::vector<RFTimeBlockEncoder::DBufferRow>* data, float* meta, double ml) { e->maximizeChannels(*data, meta, ml); }
'''
    for k, c, vecs in (('row', 'RowTimeBlockEncoder', ['_rowFactors']), ('rf', 'RFTimeBlockEncoder', ['_rowFactors', '_channelFactors'])):
        out += '''using K_%(k)s = %(c)s;
extern "C" size_t vf_%(k)s_pol() { return __builtin_offsetof(K_%(k)s, _nPol); }
extern "C" size_t vf_%(k)s_chan() { return __builtin_offsetof(K_%(k)s, _nChannels); }
extern "C" void vf_%(k)s_enc(K_%(k)s* e, const SE* g, B_cf* b, float* meta, unsigned* sym, size_t ants) { e->K_%(k)s::EncodeWithoutDithering(*g, *b, meta, sym, ants); }
extern "C" void vf_%(k)s_dit(K_%(k)s* e, const SE* g, B_cf* b, float* meta, unsigned* sym, size_t ants, std::mt19937* r) { e->K_%(k)s::EncodeWithDithering(*g, *b, meta, sym, ants, *r); }
extern "C" void vf_%(k)s_ini(K_%(k)s* e, const float* meta, size_t nRow, size_t ants) { e->K_%(k)s::InitializeDecode(meta, nRow, ants); }
extern "C" void vf_%(k)s_dec(K_%(k)s* e, const SE* g, B_cf* b, const unsigned* sym, size_t row, size_t a1, size_t a2) { e->K_%(k)s::Decode(*g, *b, sym, row, a1, a2); }
extern "C" size_t vf_%(k)s_sc3(const K_%(k)s* e, size_t n, size_t p, size_t c) { return e->K_%(k)s::SymbolCount(n, p, c); }
extern "C" size_t vf_%(k)s_sc1(const K_%(k)s* e, size_t n) { return e->K_%(k)s::SymbolCount(n); }
extern "C" size_t vf_%(k)s_spr(const K_%(k)s* e) { return e->K_%(k)s::SymbolsPerRow(); }
extern "C" size_t vf_%(k)s_mdc(const K_%(k)s* e, size_t n, size_t p, size_t c, size_t a) { return e->K_%(k)s::MetaDataCount(n, p, c, a); }
''' % dict(k=k, c=c)
        for v in vecs: out += 'extern "C" size_t vf_%s_%s() { return __builtin_offsetof(K_%s, %s); }\n' % (k, v, k, v)
    return out


# ------------------------------------------------------------------ callee contracts
def contracts(p, h, lay, L, s0):
    """ConvertVector (proved as C20), Encode (C05), EncodeWithDithering (C06)"""
    m = p.m
    Bo, I, Rl = z3.BoolSort(), z3.IntSort(), z3.RealSort()
    h.Q = z3.Function('quantized', Bo, Bo, Rl, I, Bo)      # Q(value, symbol): symbol is a result of quantizing the value

    def conv(m, name, args, I, st, path):
        if not (isinstance(args[0], Ptr) and args[0].reg == h.this.reg): raise Unsupported('ConvertVector of another buffer')
        this = args[1]
        attach(m, 'data', lay.row, this.reg, const_of(this.off))
        dv = 'data.%d' % lay.vis
        row_sizes(m, 'data', lay.vis, h.size0)
        m.store(st, this, Ptr('data', (), icst(0)), PTR)
        for o in (8, 16): m.store(st, this.add(icst(o)), Ptr('data', (), imul(icst(lay.size), h.n)), PTR)
        r, i = z3.Int('cvr'), z3.Int('cvi')
        g = mk_and(ile(icst(0), r), ilt(r, h.n))
        for o, w in ((lay.a1, 1), (lay.a2, 2)): m.write_cell(st, ('data', o), 'int', vc.Desc((r,), g, (r,), h.ant(s0, r, w)))
        gi = mk_and(g, ile(icst(0), i), ilt(i, h.size0(r)))
        for q in (0, 1): m.write_cell(st, (dv, lay.parts[q]), 'fp', vc.Desc((r, i), gi, (r, i), h.val(s0, r, i, q)))
        return st, None

    def enc(m, name, args, I, st, path):
        if not (isinstance(args[0], Ptr) and args[0].reg == 'E'): raise Unsupported('another quantizer')
        v = args[1]
        s = m.sym('q!' + path, 'int', st.ctx)
        m.fact_on(s, st.ctx, z3.And(s >= 0, s <= L, mk_imp(fin(v), ilt(s, L)), mk_imp(mk_not(fin(v)), ieq(s, L)), h.Q(v.nan, v.inf, v.v, s)), st.pc)
        m.nonneg_names = m.nonneg_names | {'q!' + path}
        if len(args) > 2:
            m.obligation('dither value below 2^31', 'pre', st, mk_and(ile(icst(0), args[2]), ilt(args[2], icst(2 ** 31))))
        return st, s

    def dist(m, name, args, I, st, path):
        d = m.sym('d!' + path, 'int', st.ctx)
        m.fact_on(d, st.ctx, z3.And(d >= 0, d < 2 ** 31), st.pc)
        m.nonneg_names = m.nonneg_names | {'d!' + path}
        return st, d

    m.contracts += [(re.compile(r'TimeBlockBuffer<.*>::ConvertVector<'), conv), (re.compile(r'StochasticEncoder<float>::Encode(WithDithering)?\('), enc),
                    (re.compile(r'uniform_int_distribution<unsigned int>::operator\(\)'), dist)]


def setup(p, mod, k):
    h = buffer.buffer(p, mod, 'cf', size=lambda r: norm(imul(z3.Int('nChannels'), z3.Int('nPol'))))
    L, enc, dec = quant.encoder(p, mod)
    h.L, h.dec = L, dec
    h.S = imul(h.C, h.P)
    h.ML = dec(isub(L, icst(1)))            # the highest level
    p.requires(mk_and(fin(h.ML), h.ML.v > 0))
    f = {const_ret(mod, '@vf_%s_pol' % k): h.P, const_ret(mod, '@vf_%s_chan' % k): h.C}
    p.region('K', None, fields=f)
    h.enc = Ptr('K', (), icst(0))
    contracts(p, h, Lay(mod, 'cd'), L, init())
    return h


def magnitude(re, im):
    """the larger absolute component, and whether the sample counts for the maximum"""
    m = fite(fcmp('olt', fabs_(re), fabs_(im)), fabs_(im), fabs_(re))
    return m, fin(m)


def row_ghost(p, h):
    """mx(r): the largest absolute component over the samples of row r that count"""
    m = p.m
    I, R = z3.IntSort(), z3.RealSort()
    MX, W = z3.Function('mx', I, R), z3.Function('wx', I, I)
    s0 = init()
    r, i = z3.Int('gr'), z3.Int('gi')
    a, b = h.val(s0, r, i, 0), h.val(s0, r, i, 1)
    mag, counts = magnitude(a, b)
    ok = mk_and(ile(icst(0), r), ilt(r, h.n), ile(icst(0), i), ilt(i, h.S))
    for v in (a, b):
        m.add_fact(m.val_decls(v), (r, i), mk_and(mk_imp(fin(v), z3.And(v.v <= rv(quant.FMAX), v.v >= -rv(quant.FMAX))), mk_imp(mk_and(mk_not(v.nan), v.inf), v.v != 0)))
    m.add_fact(m.val_decls(a) + m.val_decls(b), (r, i), mk_imp(mk_and(ok, counts), mag.v <= MX(r)))
    w = W(r)
    aw, bw = h.val(s0, r, w, 0), h.val(s0, r, w, 1)
    mw, cw = magnitude(aw, bw)
    m.add_fact([MX], (r,), mk_and(MX(r) >= 0, mk_imp(mk_and(ile(icst(0), r), ilt(r, h.n)), mk_or(MX(r) == 0, mk_and(ile(icst(0), w), ilt(w, h.S), cw, MX(r) == mw.v)))))

    def tmpl(m, lc):
        out = []
        for i, hv in enumerate(lc.hvals):
            if not isinstance(hv, FV) or not lc.ks: continue
            g = lambda vw, i=i: vw.phis[i]
            r0 = lc.ks[0]
            out.append(vc.Cand('le-max', ('phi', i), lambda vw, K, x, g=g, r0=r0: g(vw).v <= MX(r0)))
            out.append(vc.Cand('covers', ('phi', i), lambda vw, K, x, g=g, r0=r0: mk_imp(ilt(W(r0), K), g(vw).v >= MX(r0))))
        return out
    m.templates.append(tmpl)
    return MX, W


def row_encode(mod, pid, dither):
    fn = '@vf_row_dit' if dither else '@vf_row_enc'
    p = Proof('Encode' + ('WithDithering' if dither else ''), mod, fn, 'RowTimeBlockEncoder::EncodeWith%sDithering' % ('' if dither else 'out'))
    h = setup(p, mod, 'row')
    MX, W = row_ghost(p, h)
    s0 = init()
    p.region('meta', 4, h.n)
    SZ = imul(imul(icst(2), h.S), h.n)
    p.region('sym', 4, SZ)
    for x in (h.rows, h.vis, 'B'): p.m.read_only.add(x)
    args = [h.enc, E_, h.this, Ptr('meta', (), icst(0)), Ptr('sym', (), icst(0)), p.nat('ants')]
    if dither:
        p.region('rnd', 8, p.nat('rndsize'))
        args.append(Ptr('rnd', (), icst(0)))
    p.run(args)
    st = p.state
    r, i = p.nat('r'), p.nat('i')
    inr = mk_and(ilt(r, h.n), ilt(i, h.S))
    H = [r, i]
    M = p.cell('meta', 0, 'fp', (r,))
    ML = h.ML.v
    both = None
    x = [h.val(s0, r, i, q) for q in (0, 1)]
    nv = [z3.If(MX(r) == 0, v.v, v.v * (ML / MX(r))) for v in x]
    sm = [p.m.get_cell(st, ('sym', 0), 'int').read((iadd(imul(r, imul(icst(2), h.S)), iadd(imul(icst(2), i), icst(q))),)) for q in (0, 1)]
    both = mk_and(fin(x[0]), fin(x[1]))
    if pid == 'C09':
        p.ensures('the stored factor is the maximum of the row over the highest level', mk_imp(ilt(r, h.n), mk_and(fin(M), M.v == MX(r) / ML)), hints=H)
        lemma_undo(p)
    sample_posts(p, h, pid, H, inr, x, nv, sm, both)
    if pid == 'C11': p.ensures('every scale factor is written', mk_imp(ilt(r, h.n), fin(M)), hints=H)
    if pid == 'C10':
        for q in (0, 1):
            p.ensures('no finite component exceeds the highest level, part %d' % q, mk_imp(mk_and(inr, both), z3.And(nv[q] <= ML, nv[q] >= -ML)), hints=H)
            p.ensures('what is quantized is the normalized sample, part %d' % q, mk_imp(mk_and(inr, both), h.Q(F, F, nv[q], sm[q])), hints=H)
        w = W(r)
        xw = [h.val(s0, r, w, q) for q in (0, 1)]
        nw = [z3.If(MX(r) == 0, v.v, v.v * (ML / MX(r))) for v in xw]
        top = lambda v: z3.Or(v == ML, v == -ML)
        p.ensures('the largest component becomes the highest level', mk_imp(mk_and(inr, both, z3.Or(x[0].v != 0, x[1].v != 0)),
                  mk_and(ile(icst(0), w), ilt(w, h.S), mk_or(mk_and(fin(xw[0]), top(nw[0])), mk_and(fin(xw[1]), top(nw[1]))))), hints=H + [w])
    p.cover()
    return p.finish(None if pid == 'C11' else ('pre',))


# ------------------------------------------------------------------ row-channel normalization
def dbuffer(p, mod, name='data', owner='V'):
    """a vector of rows of complex doubles, each of nPol * nChannels samples"""
    lay = Lay(mod, 'cd')
    m = p.m
    vectors.install(m)
    n, P, C = p.nat('nRows'), p.nat('nPol', 1), p.nat('nChannels', 1)
    attach(m, name, lay.row, owner, 0)
    f = vec_init(m, name, 0, n)
    S = imul(C, P)
    row_sizes(m, name, lay.vis, lambda r: S)
    p.region(owner, None, fields=f)

    class H: pass
    h = H()
    h.lay, h.n, h.P, h.C, h.S, h.vis = lay, n, P, C, S, '%s.%d' % (name, lay.vis)
    h.this = Ptr(owner, (), icst(0))
    h.val = lambda st, r, i, part: m.get_cell(st, (h.vis, lay.parts[part]), 'fp').read((r, i))
    fields = {const_ret(mod, '@vf_rf_pol'): P, const_ret(mod, '@vf_rf_chan'): C}
    p.region('K', None, fields=fields)
    h.enc = Ptr('K', (), icst(0))
    p.m.read_only.add('K')
    h.ML = FV(F, F, z3.Real('ML'))
    p.requires(h.ML.v > 0)
    return h


def group_max(p, h, val, name, outer, inner, at, add_inf=True):
    """mx(o..): the largest absolute component over the samples at(o.., k) for k < inner; w(o..) is where"""
    m = p.m
    I, R = z3.IntSort(), z3.RealSort()
    n = len(outer)
    MX, W = z3.Function('mx' + name, *([I] * n), R), z3.Function('wx' + name, *([I] * n), I)
    m.ghosts |= {MX.get_id(), W.get_id()}; TM._keep.extend((MX, W))
    o = [z3.Int('g%s%d' % (name, i)) for i in range(n)]
    ok = mk_and(*[mk_and(ile(icst(0), a), ilt(a, b)) for a, b in zip(o, outer)])
    k = z3.Int('gk' + name)
    w = W(*o)
    def counted(k):
        r, i = at(o, k)
        return magnitude(val(r, i, 0), val(r, i, 1))
    mw, cw = counted(w)
    m.add_fact([MX], o, mk_and(MX(*o) >= 0, mk_imp(ok, mk_or(MX(*o) == 0, mk_and(ile(icst(0), w), ilt(w, inner), cw, MX(*o) == mw.v)))))
    # every sample is below the maximum of its group
    r, i = z3.Int('gr' + name), z3.Int('gi' + name)
    for v in (val(r, i, 0), val(r, i, 1)) if add_inf else (): m.add_fact(m.val_decls(v), (r, i), mk_imp(mk_and(mk_not(v.nan), v.inf), v.v != 0))
    mk_, ck = counted(k)
    m.add_fact([MX], o, mk_imp(mk_and(ok, ile(icst(0), k), ilt(k, inner), ck), mk_.v <= MX(*o)), (k,))
    return MX, W


def max_templates(p, MX, W, point):
    def tmpl(m, lc):
        out = []
        for i, hv in enumerate(lc.hvals):
            if not isinstance(hv, FV): continue
            o = point(lc)
            if o is None: continue
            out.append(vc.Cand('le-max', ('phi', i), lambda vw, K, x, i=i, o=o: vw.phis[i].v <= MX(*o)))
            out.append(vc.Cand('covers', ('phi', i), lambda vw, K, x, i=i, o=o: mk_imp(ilt(W(*o), K), vw.phis[i].v >= MX(*o))))
        return out
    p.m.templates.append(tmpl)


def rf_rows(mod, pid):
    p = Proof('maximizeRows', mod, '@vf_rf_mrows', 'RFTimeBlockEncoder::maximizeRows')
    h = dbuffer(p, mod)
    s0 = init()
    val = lambda r, i, q: h.val(s0, r, i, q)
    MX, W = group_max(p, h, val, 'R', (h.n, h.P), h.C, lambda o, k: (o[0], iadd(imul(k, h.P), o[1])))
    max_templates(p, MX, W, lambda lc: lc.ks[:2] if len(lc.ks) == 2 else None)
    p.region('meta', 4, iadd(h.S, imul(h.n, h.P)))
    p.run([h.enc, h.this, Ptr('meta', (), icst(0)), h.ML])
    st = p.state
    r, c, q = p.nat('r'), p.nat('c'), p.nat('q')
    i = iadd(imul(c, h.P), q)
    inr = mk_and(ilt(r, h.n), ilt(c, h.C), ilt(q, h.P))
    H = [r, c, q]
    ML = h.ML.v
    M = p.m.get_cell(st, ('meta', 0), 'fp').read((iadd(h.S, iadd(imul(r, h.P), q)),))
    fac = z3.If(MX(r, q) == 0, rv(1), ML / MX(r, q))
    if pid == 'C11': p.ensures('every row factor is written', mk_imp(inr, fin(M)), hints=H)
    if pid != 'C11':
        p.ensures('the stored row factor is the maximum over the highest level', mk_imp(inr, mk_and(fin(M), M.v == MX(r, q) / ML)), hints=H)
        for part in (0, 1):
            a, b = h.val(st, r, i, part), val(r, i, part)
            p.ensures('every sample of the row and polarization is scaled by its factor, part %d' % part, mk_imp(inr, scaled(a, b, fac)), hints=H)
    p.cover()
    return p.finish(None if pid == 'C11' else ())


def rf_channels(mod, pid):
    p = Proof('maximizeChannels', mod, '@vf_rf_mchan', 'RFTimeBlockEncoder::maximizeChannels')
    h = dbuffer(p, mod)
    s0 = init()
    val = lambda r, i, q: h.val(s0, r, i, q)
    MX, W = group_max(p, h, val, 'C', (h.S,), h.n, lambda o, k: (k, o[0]))
    max_templates(p, MX, W, lambda lc: lc.ks[:1] if len(lc.ks) == 1 else None)
    p.region('meta', 4, iadd(h.S, imul(h.n, h.P)))
    p.run([h.enc, h.this, Ptr('meta', (), icst(0)), h.ML])
    st = p.state
    r, i, k = p.nat('r'), p.nat('i'), p.nat('k')
    inr = mk_and(ilt(r, h.n), ilt(i, h.S))
    H = [r, i, k]
    ML = h.ML.v
    fac = z3.If(MX(i) == 0, rv(1), ML / MX(i))
    M = p.cell('meta', 0, 'fp', (i,))
    if pid == 'C11': p.ensures('every channel factor is written', mk_imp(ilt(i, h.S), fin(M)), hints=H)
    if pid in ('C08', 'C09', 'C10'):
        p.ensures('the stored channel factor undoes the scaling', mk_imp(ilt(i, h.S), mk_and(fin(M), M.v == 1 / fac)), hints=H)
        for part in (0, 1):
            a, b = h.val(st, r, i, part), val(r, i, part)
            p.ensures('every sample of the channel is scaled by its factor, part %d' % part, mk_imp(inr, scaled(a, b, fac)), hints=H)
    if pid in ('C09', 'C11'):
        M, M0 = p.cell('meta', 0, 'fp', (k,)), p.m.get_cell(s0, ('meta', 0), 'fp').read((k,))
        p.ensures('the row factors stay', mk_imp(mk_and(ile(h.S, k), ilt(k, iadd(h.S, imul(h.n, h.P)))), same_fv(M, M0)), hints=H)
    p.cover()
    return p.finish(None if pid == 'C11' else ())


def scaled(a, b, fac):
    """a is b scaled; whether it is a number, infinite or not-a-number stays"""
    return mk_and(a.nan == b.nan, fin(a) == fin(b), mk_imp(fin(b), a.v == b.v * fac))


def rf_contracts(p, h, meta):
    """contracts of maximizeRows and maximizeChannels for the encode function; h.facs collects what they define"""
    m = p.m
    I, R = z3.IntSort(), z3.RealSort()
    h.facs = {}
    ML = h.ML

    def scale(m, st, path, key, facf, dv, parts):
        r, i = z3.Int('sr!' + key), z3.Int('si!' + key)
        g = mk_and(ile(icst(0), r), ilt(r, h.n), ile(icst(0), i), ilt(i, h.S))
        for q in (0, 1):
            b = m.get_cell(st, (dv, parts[q]), 'fp').read((r, i))
            m.write_cell(st, (dv, parts[q]), 'fp', vc.Desc((r, i), g, (r, i), FV(b.nan, b.inf, b.v * facf(r, i))))

    def group(m, st, key, outer, inner, at, dv, parts):
        cells = [m.get_cell(st, (dv, parts[q]), 'fp') for q in (0, 1)]
        return group_max(p, h, lambda r, i, q: cells[q].read((r, i)), key, outer, inner, at, add_inf=False)

    def common(m, args, st, size):
        if not (isinstance(args[1], Ptr) and isinstance(args[2], Ptr) and args[2].reg == 'meta' and isinstance(args[3], FV)): raise Unsupported('maximize arguments')
        b = m.load(st, args[1], PTR)
        if not isinstance(b, Ptr) or b.reg != 'data': raise Unsupported('maximize on other rows')
        m.obligation('the scale factors start at the begin of the buffer', 'pre', st, ieq(args[2].off, icst(0)))
        m.obligation('the level is the highest quantity', 'pre', st, mk_and(fin(args[3]), args[3].v == ML.v))
        e = m.load(st, args[1].add(icst(8)), PTR)
        m.obligation('all rows of the block are normalized', 'pre', st, ieq(e.off, imul(icst(Lay(p.mod, 'cd').size), h.n)))

    def rows(m, name, args, I, st, path):
        common(m, args, st, None)
        if 'R' in h.facs: raise Unsupported('rows normalized twice')
        lay = Lay(p.mod, 'cd'); dv = 'data.%d' % lay.vis
        MX, W = group(m, st, 'R', (h.n, h.P), h.C, lambda o, k: (o[0], iadd(imul(k, h.P), o[1])), dv, lay.parts)
        fac = lambda r, i: z3.If(MX(r, imod(i, h.P)) == 0, rv(1), ML.v / MX(r, imod(i, h.P)))
        h.facs['R'] = (MX, W, fac, 'C' in h.facs)
        scale(m, st, path, 'R', fac, dv, lay.parts)
        r, q = z3.Int('mr'), z3.Int('mq')
        g = mk_and(ile(icst(0), r), ilt(r, h.n), ile(icst(0), q), ilt(q, h.P))
        m.write_cell(st, ('meta', 0), 'fp', vc.Desc((r, q), g, (iadd(h.S, iadd(imul(r, h.P), q)),), FV(F, F, MX(r, q) / ML.v)))
        return st, None

    def chans(m, name, args, I, st, path):
        common(m, args, st, None)
        if 'C' in h.facs: raise Unsupported('channels normalized twice')
        lay = Lay(p.mod, 'cd'); dv = 'data.%d' % lay.vis
        MX, W = group(m, st, 'C', (h.S,), h.n, lambda o, k: (k, o[0]), dv, lay.parts)
        fac = lambda r, i: z3.If(MX(i) == 0, rv(1), ML.v / MX(i))
        h.facs['C'] = (MX, W, fac, 'R' in h.facs)
        scale(m, st, path, 'C', fac, dv, lay.parts)
        i = z3.Int('mi')
        m.write_cell(st, ('meta', 0), 'fp', vc.Desc((i,), mk_and(ile(icst(0), i), ilt(i, h.S)), (i,), FV(F, F, 1 / fac(None, i))))
        return st, None
    m.contracts += [(re.compile(r'RFTimeBlockEncoder::maximizeRows\('), rows), (re.compile(r'RFTimeBlockEncoder::maximizeChannels\('), chans)]


def rf_encode(mod, pid, dither):
    fn = '@vf_rf_dit' if dither else '@vf_rf_enc'
    p = Proof('Encode' + ('WithDithering' if dither else ''), mod, fn, 'RFTimeBlockEncoder::EncodeWith%sDithering' % ('' if dither else 'out'))
    h = setup(p, mod, 'rf')
    rf_contracts(p, h, 'meta')
    s0 = init()
    p.region('meta', 4, iadd(h.S, imul(h.n, h.P)))
    p.region('sym', 4, imul(imul(icst(2), h.S), h.n))
    for x in (h.rows, h.vis, 'B'): p.m.read_only.add(x)
    args = [h.enc, E_, h.this, Ptr('meta', (), icst(0)), Ptr('sym', (), icst(0)), p.nat('ants')]
    if dither:
        p.region('rnd', 8, p.nat('rndsize'))
        args.append(Ptr('rnd', (), icst(0)))
    for q in (0, 1):
        x = h.val(s0, z3.Int('gr'), z3.Int('gi'), q)
        p.m.add_fact(p.m.val_decls(x), (z3.Int('gr'), z3.Int('gi')), mk_imp(mk_and(mk_not(x.nan), x.inf), x.v != 0))
    p.run(args)
    if set(h.facs) != {'R', 'C'}: raise Unsupported('the encoder does not use maximizeRows and maximizeChannels')
    st = p.state
    r, c, q_ = p.nat('r'), p.nat('c'), p.nat('q')
    i = iadd(imul(c, h.P), q_)
    inr = mk_and(ilt(r, h.n), ilt(c, h.C), ilt(q_, h.P))
    H = [r, c, q_, i]
    ML = h.ML.v
    MXR, WR, _, _ = h.facs['R']
    MXC, WC, _, rows_first = h.facs['C']
    fr = z3.If(MXR(r, q_) == 0, rv(1), ML / MXR(r, q_))
    fc = z3.If(MXC(i) == 0, rv(1), ML / MXC(i))
    x = [h.val(s0, r, i, q) for q in (0, 1)]
    nv = [v.v * fr * fc for v in x]
    sm = [p.m.get_cell(st, ('sym', 0), 'int').read((iadd(imul(r, imul(icst(2), h.S)), iadd(imul(icst(2), i), icst(q))),)) for q in (0, 1)]
    both = mk_and(fin(x[0]), fin(x[1]))
    cm = p.cell('meta', 0, 'fp', (i,))
    rm = p.cell('meta', 0, 'fp', (iadd(h.S, iadd(imul(r, h.P), q_)),))
    sample_posts(p, h, pid, H, inr, x, nv, sm, both)
    if pid == 'C11':
        p.ensures('every row factor is written', mk_imp(inr, fin(rm)), hints=H)
        p.ensures('every channel factor is written', mk_imp(inr, fin(cm)), hints=H)
    if pid == 'C09':
        p.ensures('the row factor is stored', mk_imp(inr, mk_and(fin(rm), rm.v == MXR(r, q_) / ML)), hints=H)
        p.ensures('the channel factor is stored', mk_imp(inr, mk_and(fin(cm), cm.v == 1 / fc)), hints=H)
        lemma_undo(p)
    if pid == 'C10':
        for q in (0, 1):
            p.ensures('no finite component exceeds the highest level, part %d' % q, mk_imp(mk_and(inr, both), z3.And(nv[q] <= ML, nv[q] >= -ML)), hints=H)
            p.ensures('what is quantized is the normalized sample, part %d' % q, mk_imp(mk_and(inr, both), h.Q(F, F, nv[q], sm[q])), hints=H)
        w = WC(i)
        frw = z3.If(MXR(w, q_) == 0, rv(1), ML / MXR(w, q_))
        xw = [h.val(s0, w, i, q) for q in (0, 1)]
        nw = [v.v * frw * fc for v in xw]
        top = lambda v: z3.Or(v == ML, v == -ML)
        p.ensures('the largest component of a channel becomes the highest level', mk_imp(mk_and(inr, both, z3.Or(x[0].v != 0, x[1].v != 0)),
                  mk_and(ile(icst(0), w), ilt(w, h.n), mk_or(mk_and(fin(xw[0]), top(nw[0])), mk_and(fin(xw[1]), top(nw[1]))))), hints=H + [w])
    p.cover()
    return p.finish(None if pid == 'C11' else ('pre',))


def lemma_undo(p):
    """normalized sample times the stored factors == sample, for a sample that is not above the maximum of its row; one step per normalization"""
    v, mx, ML = z3.Reals('l!v l!mx l!ml')
    f = z3.If(mx == 0, rv(1), ML / mx)
    r, mdl = p.m.prove((ML > 0, mx >= 0, v <= mx, v >= -mx), v * f * (mx / ML) == v)
    p.res.add('the stored row factor undoes the normalization of the row (algebra)', 'lemma', r)
    r, mdl = p.m.prove((ML > 0, mx >= 0), v * f * (1 / f) == v)
    p.res.add('the stored channel factor undoes the normalization of the channel (algebra)', 'lemma', r)


def sample_posts(p, h, pid, H, inr, x, nv, sm, both):
    for q in (0, 1):
        s = sm[q]
        if pid == 'C11':
            p.ensures('every symbol is below the quantization count, part %d' % q, mk_imp(inr, mk_and(s >= 0, s <= h.L)), hints=H)
        if pid == 'C08':
            p.ensures('a finite component gets a level, part %d' % q, mk_imp(mk_and(inr, fin(x[q])), mk_and(s >= 0, ilt(s, h.L))), hints=H)
            p.ensures('a non-finite component gets the reserved symbol, part %d' % q, mk_imp(mk_and(inr, mk_not(fin(x[q]))), ieq(s, h.L)), hints=H)
        if pid == 'C09':
            p.ensures('what is quantized is the sample times the normalization, part %d' % q, mk_imp(mk_and(inr, fin(x[q])), h.Q(F, F, nv[q], s)), hints=H)


# ------------------------------------------------------------------ decoding
def decode_setup(p, mod, k):
    """contracts of UVector<double>::assign and the members it fills"""
    import vectors
    m = p.m
    vectors.install(m)
    m.contracts.append((re.compile(r'aocommon::UVector<.*>::assign<'), vectors.used(vectors.assign)))
    P, C = p.nat('nPol', 1), p.nat('nChannels', 1)
    return P, C


def factors(p, mod, k, P, C, lens):
    m = p.m
    f = {const_ret(mod, '@vf_%s_pol' % k): P, const_ret(mod, '@vf_%s_chan' % k): C}
    for name, n in lens.items():
        off = const_ret(mod, '@vf_%s_%s' % (k, name))
        attach(m, name, scalar_t(8), 'K', off)
        f.update(vec_init(m, name, off, n))
    p.region('K', None, fields=f)
    return Ptr('K', (), icst(0))


def initialize(mod, pid, k):
    p = Proof('InitializeDecode', mod, '@vf_%s_ini' % k, '%sTimeBlockEncoder::InitializeDecode' % {'row': 'Row', 'rf': 'RF'}[k])
    P, C = decode_setup(p, mod, k)
    n = p.nat('nRow')
    S = imul(C, P)
    lens = {'_rowFactors': p.nat('old1')}
    if k == 'rf': lens['_channelFactors'] = p.nat('old2')
    this = factors(p, mod, k, P, C, lens)
    reg = p.region('meta', 4, n if k == 'row' else iadd(S, imul(n, P)))
    reg.layout = {0: 'fp'}
    p.m.read_only.add('meta')
    p.run([this, Ptr('meta', (), icst(0)), n, p.nat('ants')])
    st, s0 = p.state, init()
    meta = lambda x: p.m.get_cell(s0, ('meta', 0), 'fp').read((x,))
    j = p.nat('j')
    if pid in ('C08', 'C09'):
        if k == 'row':
            p.ensures('the factor of each row is used', mk_imp(ilt(j, n), same_fv(p.cell('_rowFactors', 0, 'fp', (j,)), meta(j))), hints=[j])
        else:
            p.ensures('the factor of each channel is used', mk_imp(ilt(j, S), same_fv(p.cell('_channelFactors', 0, 'fp', (j,)), meta(j))), hints=[j])
            p.ensures('the factor of each row is used', mk_imp(ilt(j, imul(n, P)), same_fv(p.cell('_rowFactors', 0, 'fp', (j,)), meta(iadd(S, j)))), hints=[j])
    sz = lambda v: p.m.regions[v].dyn(p.m, st, ())
    if pid == 'C11':
        p.ensures('there is a factor for every row', ieq(sz('_rowFactors'), n if k == 'row' else imul(n, P)))
        if k == 'rf': p.ensures('there is a factor for every channel', ieq(sz('_channelFactors'), S))
    p.cover()
    return p.finish(None if pid == 'C11' else ())


def decode(mod, pid, k):
    p = Proof('Decode', mod, '@vf_%s_dec' % k, '%sTimeBlockEncoder::Decode' % {'row': 'Row', 'rf': 'RF'}[k])
    h = buffer.buffer(p, mod, 'cf')
    P, C = h.P, h.C
    S = imul(C, P)
    L, enc, dec = quant.encoder(p, mod)
    n = p.nat('nRow', 1)          # rows given to InitializeDecode
    lens = {'_rowFactors': n} if k == 'row' else {'_rowFactors': imul(n, P), '_channelFactors': S}
    this = factors(p, mod, k, P, C, lens)
    p.m.read_only |= set(lens) | {'K', 'B', 'sym'}
    s0 = init()
    for v in lens:
        a = p.m.get_cell(s0, (v, 0), 'fp').read((z3.Int('fx'),))
        p.m.add_fact(p.m.val_decls(a), (z3.Int('fx'),), mk_imp(mk_and(ile(icst(0), z3.Int('fx')), ilt(z3.Int('fx'), lens[v])), fin(a)))
    row = p.nat('row')
    p.requires(ilt(row, h.n))
    p.requires(ilt(row, n))
    p.region('sym', 4, imul(imul(icst(2), S), n))
    sx = z3.Int('sx')
    a = p.m.get_cell(s0, ('sym', 0), 'int').read((sx,))
    p.m.nonneg_names |= {'m0!sym!0'}
    p.m.add_fact([a.decl()], (sx,), mk_and(a >= 0, mk_imp(mk_and(ile(icst(0), sx), ilt(sx, imul(imul(icst(2), S), n))), ile(a, L))))
    # float(double(level) * factor) is taken as finite for finite factors
    a1, a2 = p.nat('a1'), p.nat('a2')
    p.run([this, E_, h.this, Ptr('sym', (), icst(0)), row, a1, a2])
    st = p.state
    c, pol, r, j = p.nat('c'), p.nat('p'), p.nat('r'), p.nat('j')
    i = iadd(imul(c, P), pol)
    H = [c, pol, r, j, row, i]
    inr = mk_and(ilt(c, C), ilt(pol, P))
    rf = p.m.get_cell(s0, ('_rowFactors', 0), 'fp').read((row if k == 'row' else iadd(imul(row, P), pol),))
    fac = rf.v
    if k == 'rf': fac = p.m.get_cell(s0, ('_channelFactors', 0), 'fp').read((i,)).v * rf.v
    for q in (0, 1):
        s = p.m.get_cell(s0, ('sym', 0), 'int').read((iadd(imul(row, imul(icst(2), S)), iadd(imul(icst(2), i), icst(q))),))
        v = h.val(st, row, i, q)
        if pid == 'C08':
            p.ensures('the reserved symbol gives a not-a-number, part %d' % q, mk_imp(mk_and(inr, ieq(s, L)), v.nan), hints=H)
            p.ensures('a level gives a finite value, part %d' % q, mk_imp(mk_and(inr, ilt(s, L)), fin(v)), hints=H)
        if pid == 'C09':
            p.ensures('a level is multiplied with the stored factors, part %d' % q, mk_imp(mk_and(inr, ilt(s, L)), v.v == dec(s).v * fac), hints=H)
    if pid == 'C11':
        p.ensures('every sample of the row is filled', ieq(h.SZ(st, row), S), hints=H)
        p.ensures('the antennas are set', mk_and(ieq(h.ant(st, row, 1), a1), ieq(h.ant(st, row, 2), a2)), hints=H)
        other = mk_and(ilt(r, h.n), mk_not(ieq(r, row)))
        p.ensures('other rows keep their size', mk_imp(other, ieq(h.SZ(st, r), h.size0(r))), hints=H)
        for q in (0, 1): p.ensures('other rows keep their samples, part %d' % q, mk_imp(mk_and(other, ilt(j, h.size0(r))), same_fv(h.val(st, r, j, q), h.val(s0, r, j, q))), hints=H)
        p.ensures('other rows keep their antennas', mk_imp(other, mk_and(ieq(h.ant(st, r, 1), h.ant(s0, r, 1)), ieq(h.ant(st, r, 2), h.ant(s0, r, 2)))), hints=H)
        p.ensures('the number of rows stays', ieq(h.NR(st), h.n))
    p.cover()
    return p.finish(None if pid == 'C11' else ())


def counts(mod, k):
    out = Result('counts-' + k, '%sTimeBlockEncoder::SymbolCount, SymbolsPerRow, MetaDataCount' % {'row': 'Row', 'rf': 'RF'}[k])
    def one(fn, args, want, name):
        p = Proof('x', mod, '@vf_%s_%s' % (k, fn), '')
        P, C, n = p.nat('nPol', 1), p.nat('nChannels', 1), p.nat('n')
        f = {const_ret(mod, '@vf_%s_pol' % k): P, const_ret(mod, '@vf_%s_chan' % k): C}
        p.region('K', None, fields=f)
        p.run([Ptr('K', (), icst(0))] + args(p, n, P, C))
        p.ensures(name, ieq(p.ret, want(n, imul(C, P), P)))
        r = p.finish()
        out.obl += r.obl; out.functions |= r.functions; out.assumptions |= r.assumptions
        for a, b in r.stats.items(): out.stats[a] = out.stats.get(a, 0) + b
    two = icst(2)
    one('sc3', lambda p, n, P, C: [n, P, C], lambda n, S, P: imul(two, imul(n, S)), 'SymbolCount(rows, polarizations, channels)')
    one('sc1', lambda p, n, P, C: [n], lambda n, S, P: imul(two, imul(n, S)), 'SymbolCount(rows)')
    one('spr', lambda p, n, P, C: [], lambda n, S, P: imul(two, S), 'SymbolsPerRow()')
    one('mdc', lambda p, n, P, C: [n, P, C, p.nat('ants')], lambda n, S, P: n if k == 'row' else iadd(S, imul(n, P)), 'MetaDataCount')
    return out


def units(pid):
    out = []
    R, RF = 'RowTimeBlockEncoder', 'RFTimeBlockEncoder'
    out += [('row-encode', R + '::EncodeWithoutDithering', lambda m: row_encode(m, pid, False)), ('row-dither', R + '::EncodeWithDithering', lambda m: row_encode(m, pid, True)),
            ('rf-rows', RF + '::maximizeRows', lambda m: rf_rows(m, pid)), ('rf-channels', RF + '::maximizeChannels', lambda m: rf_channels(m, pid)),
            ('rf-encode', RF + '::EncodeWithoutDithering', lambda m: rf_encode(m, pid, False)), ('rf-dither', RF + '::EncodeWithDithering', lambda m: rf_encode(m, pid, True))]
    if pid != 'C10':
        for k, n in (('row', R), ('rf', RF)):
            out += [(k + '-initialize', n + '::InitializeDecode', lambda m, k=k: initialize(m, pid, k)), (k + '-decode', n + '::Decode', lambda m, k=k: decode(m, pid, k))]
    if pid == 'C11':
        for k, n in (('row', R), ('rf', RF)): out.append((k + '-counts', n, lambda m, k=k: counts(m, k)))
    return out
