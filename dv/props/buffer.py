"""C20: TimeBlockBuffer<data_t>."""
from lib import *
import vectors
from vectors import VType, complex_t, scalar_t, datarow, attach, vec_init, row_sizes
from quant import const_ret

FLAGS = ['-fno-access-control']
KEEP = vectors.KEEP
TYPES = {'cf': ('std::complex<float>', 8), 'f': ('float', 4)}


def driver():
    out = '''#include <cstddef>
#include <cstring>
#include <algorithm>
#include "@REPO@/timeblockbuffer.h"
template <typename B> struct VfOff {
  using R = typename B::DataRow;
  static size_t get(int i) {
    switch (i) {
      case 0: return __builtin_offsetof(B, _nPol);
      case 1: return __builtin_offsetof(B, _nChannels);
      case 2: return __builtin_offsetof(B, _data);
      case 3: return __builtin_offsetof(R, antenna1);
      case 4: return __builtin_offsetof(R, antenna2);
      case 5: return __builtin_offsetof(R, visibilities);
      default: return sizeof(R);
    }
  }
};
'''
    for k, (t, _) in TYPES.items():
        out += '''using B_%(k)s = TimeBlockBuffer<%(t)s>;
extern "C" void vf_set_%(k)s(B_%(k)s* b, size_t row, size_t a1, size_t a2, const %(t)s* d) { b->SetData(row, a1, a2, d); }
extern "C" void vf_get_%(k)s(B_%(k)s* b, size_t row, %(t)s* d) { b->GetData(row, d); }
extern "C" size_t vf_max_%(k)s(B_%(k)s* b) { return b->MaxAntennaIndex(); }
extern "C" size_t vf_nrows_%(k)s(B_%(k)s* b) { return b->NRows(); }
extern "C" bool vf_empty_%(k)s(B_%(k)s* b) { return b->Empty(); }
extern "C" void vf_reset_%(k)s(B_%(k)s* b) { b->ResetData(); }
extern "C" void vf_resize_%(k)s(B_%(k)s* b, size_t n) { b->resize(n); }
extern "C" %(t)s* vf_row_%(k)s(B_%(k)s* b, size_t n) { return (*b)[n].visibilities.data(); }
''' % dict(k=k, t=t)
        for i in range(7): out += 'extern "C" size_t vf_off%d_%s() { return VfOff<B_%s>::get(%d); }\n' % (i, k, k, i)
    out += '''using B_cd = TimeBlockBuffer<std::complex<double>>;
extern "C" void vf_conv(B_cf* b, std::vector<B_cd::DataRow>* v) { b->ConvertVector<std::complex<double>>(*v); }
'''
    for i in range(7): out += 'extern "C" size_t vf_off%d_cd() { return VfOff<B_cd>::get(%d); }\n' % (i, i)
    return out


class Lay:
    def __init__(self, mod, k):
        o = [const_ret(mod, '@vf_off%d_%s' % (i, k)) for i in range(7)]
        self.pol, self.chan, self.data, self.a1, self.a2, self.vis, self.size = o
        self.elem = complex_t(4) if k == 'cf' else complex_t(8) if k == 'cd' else scalar_t(4)
        self.row = datarow(self.elem, self.size, self.a1, self.a2, self.vis)
        self.parts = sorted(self.elem.layout)


def buffer(p, mod, k, name='B', size=None):
    """a TimeBlockBuffer in an arbitrary state; returns helpers"""
    lay = Lay(mod, k)
    m = p.m
    vectors.install(m)
    rows, vis = name + 'rows', '%srows.%d' % (name, lay.vis)
    nrows, P, C = p.nat('nRows'), p.nat('nPol', 1), p.nat('nChannels', 1)
    SZ = z3.Function('rowsize', z3.IntSort(), z3.IntSort())
    if size is None:
        size = lambda r: norm(SZ(r))
        m.add_fact([SZ], (z3.Int('r_'),), norm(SZ(z3.Int('r_'))) >= 0)
    attach(m, rows, lay.row, name, lay.data)
    f = vec_init(m, rows, lay.data, nrows)
    f[lay.pol], f[lay.chan] = P, C
    row_sizes(m, rows, lay.vis, size)
    p.region(name, None, fields=f)
    m.nonneg_names |= {'m0!%s!%d' % (rows, lay.a1), 'm0!%s!%d' % (rows, lay.a2)}

    class H: pass
    h = H()
    h.lay, h.rows, h.vis, h.n, h.P, h.C, h.size0 = lay, rows, vis, nrows, P, C, size
    h.this = Ptr(name, (), icst(0))
    h.NR = lambda st: m.regions[rows].dyn(m, st, ())
    h.SZ = lambda st, r: m.regions[vis].dyn(m, st, (r,))
    h.ant = lambda st, r, which: m.get_cell(st, (rows, lay.a1 if which == 1 else lay.a2), 'int').read((r,))
    h.val = lambda st, r, i, part: m.get_cell(st, (vis, lay.parts[part]), 'fp').read((r, i))
    h.parts = range(len(lay.parts))
    return h


def init(): return vc.State((), {}, ())


def setdata(mod, k):
    t = TYPES[k][0]
    p = Proof('SetData-' + k, mod, '@vf_set_' + k, 'TimeBlockBuffer<%s>::SetData' % t)
    h = buffer(p, mod, k)
    row, a1, a2 = p.nat('row'), p.nat('a1'), p.nat('a2')
    CP = imul(h.P, h.C)
    reg = p.region('src', TYPES[k][1], CP)
    reg.layout = dict(h.lay.elem.layout)
    p.m.read_only.add('src')
    s0 = init()
    src = lambda i, part: p.m.get_cell(s0, ('src', h.lay.parts[part]), 'fp').read((i,))
    p.run([h.this, row, a1, a2, Ptr('src', (), icst(0))])
    st = p.state
    i, r = p.nat('i'), p.nat('r')
    H = [i, r, row]
    p.ensures('row count grows just enough', ieq(h.NR(st), iite(ile(h.n, row), iadd(row, icst(1)), h.n)))
    p.ensures('antennas of the row', mk_and(ieq(h.ant(st, row, 1), a1), ieq(h.ant(st, row, 2), a2)), hints=H)
    p.ensures('the row holds nPol * nChannels samples', ieq(h.SZ(st, row), CP), hints=H)
    for q in h.parts: p.ensures('samples of the row (component %d)' % q, mk_imp(ilt(i, CP), same_fv(h.val(st, row, i, q), src(i, q))), hints=H)
    other = mk_and(ilt(r, h.n), mk_not(ieq(r, row)))
    p.ensures('other rows keep their antennas', mk_imp(other, mk_and(ieq(h.ant(st, r, 1), h.ant(s0, r, 1)), ieq(h.ant(st, r, 2), h.ant(s0, r, 2)))), hints=H)
    p.ensures('other rows keep their size', mk_imp(other, ieq(h.SZ(st, r), h.size0(r))), hints=H)
    for q in h.parts: p.ensures('other rows keep their samples (component %d)' % q, mk_imp(mk_and(other, ilt(i, h.size0(r))), same_fv(h.val(st, r, i, q), h.val(s0, r, i, q))), hints=H)
    p.cover()
    return p.finish()


def getdata(mod, k):
    t = TYPES[k][0]
    p = Proof('GetData-' + k, mod, '@vf_get_' + k, 'TimeBlockBuffer<%s>::GetData' % t)
    h = buffer(p, mod, k)
    row = p.nat('row')
    p.requires(ilt(row, h.n))
    n = h.size0(row)
    reg = p.region('dst', TYPES[k][1], n)
    reg.layout = dict(h.lay.elem.layout)
    for x in (h.rows, h.vis, 'B'): p.m.read_only.add(x)
    p.run([h.this, row, Ptr('dst', (), icst(0))])
    st, s0 = p.state, init()
    i = p.nat('i')
    for q in h.parts:
        d = p.m.get_cell(st, ('dst', h.lay.parts[q]), 'fp').read((i,))
        p.ensures('every sample of the row is copied out (component %d)' % q, mk_imp(ilt(i, n), same_fv(d, h.val(s0, row, i, q))), hints=[i, row])
    p.cover()
    return p.finish()


def maxant(mod, k):
    t = TYPES[k][0]
    p = Proof('MaxAntennaIndex-' + k, mod, '@vf_max_' + k, 'TimeBlockBuffer<%s>::MaxAntennaIndex' % t)
    h = buffer(p, mod, k)
    s0 = init()
    for x in (h.rows, h.vis, 'B'): p.m.read_only.add(x)
    # ghost: the largest index over all rows
    MX = p.nat('MX')
    w = p.nat('w')
    r_ = z3.Int('r_')
    for wh in (1, 2):
        a = h.ant(s0, r_, wh)
        p.m.add_fact([a.decl()], (r_,), mk_and(a >= 0, mk_imp(mk_and(ile(icst(0), r_), ilt(r_, h.n)), ile(a, MX))))
    p.requires(mk_or(ieq(MX, icst(0)), mk_and(ilt(w, h.n), mk_or(ieq(MX, h.ant(s0, w, 1)), ieq(MX, h.ant(s0, w, 2))))))
    def tmpl(m, lc):
        out = []
        for i, v in enumerate(lc.hvals):
            if z3.is_expr(v) and z3.is_int(v) and lc.info.ind.get(i) is None:
                out.append(vc.Cand('le-ghost', ('phi', i), lambda vw, K, x, i=i: ile(vw.phis[i], MX)))
                out.append(vc.Cand('covers', ('phi', i), lambda vw, K, x, i=i: mk_imp(mk_and(ile(icst(0), x[0]), ilt(x[0], K)),
                           mk_and(ile(h.ant(s0, x[0], 1), vw.phis[i]), ile(h.ant(s0, x[0], 2), vw.phis[i]))), extras=(z3.Int('xr'),)))
        return out
    p.m.templates.append(tmpl)
    p.run([h.this])
    p.ensures('is the highest antenna index over all rows', ieq(p.ret, MX), hints=[w])
    p.cover()
    return p.finish()


def simple(mod, k):
    t = TYPES[k][0]
    out = Result('row-count-' + k, 'TimeBlockBuffer<%s>::NRows, Empty, ResetData, resize, operator[]' % t)
    def one(fn, args, post, cov=True):
        p = Proof('x', mod, fn + k, t)
        h = buffer(p, mod, k)
        p.run([h.this] + args(p, h))
        post(p, h)
        if cov: p.cover()
        r = p.finish()
        out.obl += r.obl; out.functions |= r.functions; out.trusted |= r.trusted; out.assumptions |= r.assumptions
        for a, b in r.stats.items(): out.stats[a] = out.stats.get(a, 0) + b
    one('@vf_nrows_', lambda p, h: [], lambda p, h: p.ensures('NRows() is the number of rows', ieq(p.ret, h.n)))
    one('@vf_empty_', lambda p, h: [], lambda p, h: p.ensures('Empty() exactly without rows', p.ret == ieq(h.n, icst(0))))
    one('@vf_reset_', lambda p, h: [], lambda p, h: p.ensures('ResetData() removes every row', ieq(h.NR(p.state), icst(0))))
    def keep(p, h):
        n2, r, i = z3.Int('n2'), p.nat('r'), p.nat('i')
        st, s0 = p.state, init()
        p.ensures('resize() gives the requested number of rows', ieq(h.NR(st), n2))
        old = mk_and(ilt(r, h.n), ilt(r, n2))
        p.ensures('resize() keeps the common rows', mk_imp(old, mk_and(ieq(h.SZ(st, r), h.size0(r)), ieq(h.ant(st, r, 1), h.ant(s0, r, 1)), *[same_fv(h.val(st, r, i, q), h.val(s0, r, i, q)) for q in h.parts])), hints=[r, i])
    one('@vf_resize_', lambda p, h: [p.nat('n2')], keep)
    def rowptr(p, h):
        ok = isinstance(p.ret, Ptr) and p.ret.reg == h.vis
        p.ensures('operator[] gives the row asked for', mk_and(T if ok else F, *( [ieq(p.ret.fam[0], z3.Int('n2')), ieq(p.ret.off, icst(0))] if ok else [])))
    def inrow(p, h):
        n2 = p.nat('n2'); p.requires(ilt(n2, h.n))
        return [n2]
    one('@vf_row_', inrow, rowptr)
    return out


def convert(mod):
    p = Proof('ConvertVector', mod, '@vf_conv', 'TimeBlockBuffer<std::complex<float>>::ConvertVector<std::complex<double>>')
    h = buffer(p, mod, 'cf')
    lay = Lay(mod, 'cd')
    m = p.m
    attach(m, 'out', lay.row, 'V', 0)
    n0 = p.nat('n0')
    S2 = z3.Function('outsize', z3.IntSort(), z3.IntSort())
    row_sizes(m, 'out', lay.vis, lambda r: norm(S2(r)))
    p.region('V', None, fields=vec_init(m, 'out', 0, n0))
    for x in (h.rows, h.vis, 'B'): m.read_only.add(x)
    p.run([h.this, Ptr('V', (), icst(0))])
    st, s0 = p.state, init()
    r, i = p.nat('r'), p.nat('i')
    inr = ilt(r, h.n)
    ov = 'out.%d' % lay.vis
    p.ensures('as many rows', ieq(m.regions['out'].dyn(m, st, ()), h.n))
    rd = lambda c, kind, *ix: m.get_cell(st, c, kind).read(ix)
    p.ensures('same antennas', mk_imp(inr, mk_and(ieq(rd(('out', lay.a1), 'int', r), h.ant(s0, r, 1)), ieq(rd(('out', lay.a2), 'int', r), h.ant(s0, r, 2)))), hints=[r])
    p.ensures('same number of samples', mk_imp(inr, ieq(m.regions[ov].dyn(m, st, (r,)), h.size0(r))), hints=[r])
    for q in (0, 1):
        p.ensures('same samples (component %d)' % q, mk_imp(mk_and(inr, ilt(i, h.size0(r))), same_fv(rd((ov, lay.parts[q]), 'fp', r, i), h.val(s0, r, i, q))), hints=[r, i])
    p.cover()
    return p.finish()


def units(pid):
    out = []
    for k in TYPES:
        n = 'TimeBlockBuffer<%s>' % TYPES[k][0]
        out += [('SetData-' + k, n + '::SetData', lambda m, k=k: setdata(m, k)), ('GetData-' + k, n + '::GetData', lambda m, k=k: getdata(m, k)),
                ('MaxAntennaIndex-' + k, n + '::MaxAntennaIndex', lambda m, k=k: maxant(m, k)), ('row-count-' + k, n, lambda m, k=k: simple(m, k))]
    return out + [('ConvertVector', 'TimeBlockBuffer::ConvertVector', lambda m: convert(m))]
