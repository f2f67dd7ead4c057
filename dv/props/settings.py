"""C15: dataManagerSpec / setFromSpec / construction / clone of DyscoStMan.  (C16 shares the driver.)"""
from lib import *
import strs
from quant import const_ret

FLAGS = ['-fno-access-control']
KEEP = strs.KEEP + [r'DyscoDataColumn::SetStaticRandomizationSeed', r'dyscostman::Dysco(Weight|Data)Column::Dysco(Weight|Data)Column\(', r'^(void )?std::vector<std::unique_ptr<dyscostman::DyscoStManColumn.*::(push_back|emplace_back|back)\(']
FIELDS = ['_dataBitCount', '_weightBitCount', '_distribution', '_normalization', '_studentTNu', '_distributionTruncation', '_staticSeed', '_name', '_nRow', '_rowsPerBlock', '_nBlocksInFile', '_blockSize', '_headerSize', '_antennaCount', '_columns', '_fStream']


def driver():
    return '''#include <cstddef>
#include "@REPO@/dyscostman.cc"
using namespace dyscostman;
extern "C" void vf_spec(DyscoStMan* s, DyscoStMan* d) { casacore::Record r = s->dataManagerSpec(); d->setFromSpec(r); }
extern "C" casacore::DataManager* vf_make(DyscoStMan* s, const casacore::String* n) { casacore::Record r = s->dataManagerSpec(); return DyscoStMan::makeObject(*n, r); }
extern "C" casacore::DataManager* vf_clone(DyscoStMan* s) { return s->clone(); }
extern "C" void vf_new(DyscoStMan* d, unsigned a, unsigned b, const casacore::String* n) { new (d) DyscoStMan(a, b, *n); }
extern "C" void vf_set(DyscoStMan* d, const casacore::Record* r) { d->setFromSpec(*r); }
extern "C" void vf_gauss(DyscoStMan* d) { d->SetGaussianDistribution(); }
extern "C" void vf_uniform(DyscoStMan* d) { d->SetUniformDistribution(); }
extern "C" void vf_student(DyscoStMan* d, double nu) { d->SetStudentsTDistribution(nu); }
extern "C" void vf_trunc(DyscoStMan* d, double t) { d->SetTruncatedGaussianDistribution(t); }
extern "C" void vf_norm(DyscoStMan* d, Normalization n) { d->SetNormalization(n); }
extern "C" void vf_seed(DyscoStMan* d, bool n) { d->SetStaticSeed(n); }
extern "C" int vf_en(int i) { switch (i) { case 0: return GaussianDistribution; case 1: return UniformDistribution; case 2: return StudentsTDistribution;
  case 3: return TruncatedGaussianDistribution; case 4: return (int)Normalization::kAF; case 5: return (int)Normalization::kRF; default: return (int)Normalization::kRow; } }
extern "C" void vf_remove(DyscoStMan* d, casacore::uInt row) { d->removeRow(row); }
extern "C" void vf_prepare(DyscoStMan* d) { d->prepare(); }
extern "C" void* vf_scalar(DyscoStMan* d, const casacore::String* n, int t, const casacore::String* i) { return d->makeScalarColumn(*n, t, *i); }
extern "C" void* vf_dir(DyscoStMan* d, const casacore::String* n, int t, const casacore::String* i) { return d->makeDirArrColumn(*n, t, *i); }
extern "C" void* vf_ind(DyscoStMan* d, const casacore::String* n, int t, const casacore::String* i) { return d->makeIndArrColumn(*n, t, *i); }
extern "C" int vf_ty(int i) { return i ? casacore::TpComplex : casacore::TpFloat; }
''' + ''.join('extern "C" size_t vf_off_%s() { return __builtin_offsetof(DyscoStMan, %s); }\n' % (f, f) for f in FIELDS)


class Lay:
    def __init__(self, mod):
        for f in FIELDS: setattr(self, f[1:], const_ret(mod, '@vf_off_' + f))
        self.dist = [enum(mod, i) for i in range(4)]
        self.norm = [enum(mod, i) for i in range(4, 7)]


def enum(mod, i, fn='@vf_en'):
    m = vc.Machine(mod)
    _, r = m.run_function(fn, [icst(i)], vc.State((), {}, ()), 'c')
    return const_of(r)


SETTINGS = [('data bit rate', 'dataBitCount', 'int'), ('weight bit rate', 'weightBitCount', 'int'), ('distribution', 'distribution', 'int'), ('normalization', 'normalization', 'int'),
            ("Student's t parameter", 'studentTNu', 'fp'), ('truncation', 'distributionTruncation', 'fp')]


def start(unit, mod, fn, target):
    p = Proof(unit, mod, fn, target)
    strs.install(p.m)
    p.m.exact_trunc = True
    p.lay = Lay(mod)
    return p


def member(p, reg, f, kind, st, base=0):
    return p.m.get_cell(st, (reg, base + getattr(p.lay, f)), kind).read((icst(0),))


def name_of(p, reg, st, base=0):
    return strs.get(p.m, st, Ptr(reg, (), icst(base + p.lay.name)))


def configurable(p, reg):
    """the settings that can be made: nonzero bit rates below 2^31, one of the distributions and normalizations"""
    s0 = vc.State((), {}, ())
    for f in ('dataBitCount', 'weightBitCount'):
        v = member(p, reg, f, 'int', s0)
        p.requires(mk_and(v >= 1, v < 2**31))
    p.requires(mk_or(*[ieq(member(p, reg, 'distribution', 'int', s0), icst(d)) for d in p.lay.dist]))
    p.requires(mk_or(*[ieq(member(p, reg, 'normalization', 'int', s0), icst(d)) for d in p.lay.norm]))


def same_settings(p, a, sa, b, sb, what='', baseb=0):
    for t, f, k in SETTINGS:
        x, y = member(p, a, f, k, sa), member(p, b, f, k, sb, baseb)
        p.ensures('%ssame %s' % (what, t), ieq(x, y) if k == 'int' else same_fv(x, y))


def init(): return vc.State((), {}, ())


def spec(mod):
    p = start('spec-roundtrip', mod, '@vf_spec', 'DyscoStMan::dataManagerSpec, setFromSpec')
    p.region('S', None); p.region('D', None)
    p.m.read_only.add('S')
    configurable(p, 'S')
    p.run([Ptr('S', (), icst(0)), Ptr('D', (), icst(0))])
    same_settings(p, 'S', init(), 'D', p.state)
    p.cover()
    return p.finish()


def new_obj(p):
    r = p.ret
    al = p.m.resolve_alts(p.state, r)
    if len(al) != 1: raise Unsupported('result %r' % (r,))
    return al[0][1].reg, const_of(al[0][1].off)


def make(mod):
    p = start('new-from-spec', mod, '@vf_make', 'DyscoStMan::makeObject, DyscoStMan(name, spec)')
    p.region('S', None); p.region('N', None)
    p.m.read_only |= {'S', 'N'}
    configurable(p, 'S')
    p.run([Ptr('S', (), icst(0)), Ptr('N', (), icst(0))])
    r, o = new_obj(p)
    same_settings(p, 'S', init(), r, p.state, baseb=o)
    p.ensures('has the name it was given', ieq(strs.get(p.m, init(), Ptr('N', (), icst(0))), name_of(p, r, p.state, o)))
    p.cover()
    return p.finish()


def clone(mod):
    p = start('clone', mod, '@vf_clone', 'DyscoStMan::clone, DyscoStMan(const DyscoStMan&)')
    p.region('S', None)
    p.m.read_only.add('S')
    p.run([Ptr('S', (), icst(0))])
    r, o = new_obj(p)
    same_settings(p, 'S', init(), r, p.state, baseb=o)
    p.ensures('same name', ieq(name_of(p, 'S', init()), name_of(p, r, p.state, o)))
    p.ensures('same choice of static seed', ieq(member(p, 'S', 'staticSeed', 'int', init()), member(p, r, 'staticSeed', 'int', p.state, o)))
    p.cover()
    return p.finish()


def setters(mod):
    out = Result('setters', 'DyscoStMan constructors and Set* methods')
    lay = Lay(mod)
    ALL = [f for _, f, _ in SETTINGS] + ['staticSeed']
    kind = {f: k for _, f, k in SETTINGS}
    def one(fn, args, expect, what, fresh=False):
        p = start('x', mod, fn, '')
        p.region('D', None)
        p.region('N', None)
        p.run([Ptr('D', (), icst(0))] + args(p))
        exp = expect(p)
        for f in ALL:
            k = kind.get(f, 'int')
            if f in exp:
                v = member(p, 'D', f, k, p.state)
                p.ensures('%s: %s' % (what, f), ieq(v, exp[f]) if k == 'int' else same_fv(v, exp[f]))
            elif not fresh:
                a, b = member(p, 'D', f, k, p.state), member(p, 'D', f, k, init())
                p.ensures('%s keeps %s' % (what, f), ieq(a, b) if k == 'int' else same_fv(a, b))
        p.cover()
        r = p.finish()
        out.obl += r.obl; out.functions |= r.functions; out.trusted |= r.trusted; out.assumptions |= r.assumptions
        for a, b in r.stats.items(): out.stats[a] = out.stats.get(a, 0) + b
    D = p_fp = lambda n: FV(z3.Bool(n + '.nan'), z3.Bool(n + '.inf'), z3.Real(n + '.v'))
    one('@vf_gauss', lambda p: [], lambda p: {'distribution': icst(lay.dist[0])}, 'SetGaussianDistribution')
    one('@vf_uniform', lambda p: [], lambda p: {'distribution': icst(lay.dist[1])}, 'SetUniformDistribution')
    one('@vf_student', lambda p: [D('nu')], lambda p: {'distribution': icst(lay.dist[2]), 'studentTNu': D('nu')}, 'SetStudentsTDistribution')
    one('@vf_trunc', lambda p: [D('tr')], lambda p: {'distribution': icst(lay.dist[3]), 'distributionTruncation': D('tr')}, 'SetTruncatedGaussianDistribution')
    one('@vf_norm', lambda p: [p.nat('nn')], lambda p: {'normalization': norm(z3.Int('nn'))}, 'SetNormalization')
    one('@vf_new', lambda p: [p.nat('a'), p.nat('b'), Ptr('N', (), icst(0))], lambda p: {'dataBitCount': norm(z3.Int('a')), 'weightBitCount': norm(z3.Int('b')),
        'distribution': icst(lay.dist[3]), 'normalization': icst(lay.norm[0])}, 'new manager', fresh=True)
    return out


def literal_of(p, text): return strs.literal(p.m, text)


def record(p, reg):
    """an arbitrary record of the caller"""
    p.region(reg, None)
    q = Ptr(reg, (), icst(0))
    return lambda what, field: strs.rget(p.m, init(), what, q, literal_of(p, field))


def refused(p, name, ok):
    """ends normally only for acceptable input, and throws only for the rest"""
    if p.state is not None: p.ensures('accepted only: ' + name, ok)
    for i, (s, what, path) in enumerate(p.m.throws):
        p.ensures('refused only if not: %s (throw %d)' % (name, i), mk_not(ok), st=s)


def spec_refused(mod):
    p = start('spec-refused', mod, '@vf_set', 'DyscoStMan::setFromSpec')
    p.region('D', None)
    r = record(p, 'R')
    p.m.read_only.add('R')
    one = lambda f, names: mk_or(*[ieq(r('recs', f), literal_of(p, n)) for n in names])
    # every field that is there has the type that a specification has
    for f, t in (('dataBitCount', 1), ('weightBitCount', 1), ('distribution', 7), ('normalization', 7), ('studentTNu', 6), ('distributionTruncation', 6)):
        if f != 'studentTNu': p.requires(mk_or(mk_not(r('recd', 'dataBitCount')), r('recd', f)))
        p.requires(mk_or(mk_not(r('recd', f)), ieq(r('rect', f), icst(t))))
    low = lambda f: mk_and(r('reci', f) >= -2**31, r('reci', f) < 2**31)
    p.requires(low('dataBitCount')); p.requires(low('weightBitCount'))
    ok = mk_or(mk_not(r('recd', 'dataBitCount')), mk_and(mk_not(ieq(r('reci', 'dataBitCount'), icst(0))), mk_not(ieq(r('reci', 'weightBitCount'), icst(0))),
               one('distribution', ['Uniform', 'Gaussian', 'StudentsT', 'StudentT', 'TruncatedGaussian']), one('normalization', ['AF', 'RF', 'Row'])))
    p.run([Ptr('D', (), icst(0)), Ptr('R', (), icst(0))], nothrow=False)
    refused(p, 'nonzero bit rates, known distribution and normalization', ok)
    p.cover()
    return p.finish()


def remove_row(mod):
    p = start('remove-row', mod, '@vf_remove', 'DyscoStMan::removeRow')
    p.region('D', None)
    row = p.nat('row')
    p.requires(row < 2**32)
    n = member(p, 'D', 'nRow', 'int', init())
    p.requires(mk_and(n >= 0, n < 2**62))
    p.run([Ptr('D', (), icst(0)), row], nothrow=False)
    # removeRow(2^64-1) of an empty table: the row number has 32 bits
    refused(p, 'the row is the last', ieq(row, isub(n, icst(1))))
    p.ensures('one row less', ieq(member(p, 'D', 'nRow', 'int', p.state), isub(n, icst(1))))
    p.cover()
    return p.finish()


def prepare(which):
    def f(mod):
        p = start('prepare-' + which, mod, '@vf_prepare', 'DyscoStMan::prepare')
        p.region('D', None)
        p.m.regions['D'].fields[getattr(p.lay, which)] = lambda *a: icst(0)
        p.m.regions['D'].layout = {getattr(p.lay, which): 'int'}
        p.run([Ptr('D', (), icst(0))], nothrow=False)
        if p.state is None: p.res.add('a manager without a %s is refused' % which, 'ensures', 'proved')
        else: p.ensures('a manager without a %s is refused' % which, F)
        p.res.add('vacuity: an exception is thrown', 'cover', 'proved' if p.m.throws else 'failed')
        return p.finish()
    return f


def never(fn, what):
    def f(mod):
        p = start(what, mod, fn, 'DyscoStMan::' + what)
        for r in 'DNI': p.region(r, None)
        t = z3.Int('type')
        p.requires(mk_and(t >= 0, t < 2**31))
        p.run([Ptr('D', (), icst(0)), Ptr('N', (), icst(0)), norm(t), Ptr('I', (), icst(0))], nothrow=False)
        if p.state is None: p.res.add('every request is refused', 'ensures', 'proved')
        else: p.ensures('every request is refused', F)
        p.res.add('vacuity: an exception is thrown', 'cover', 'proved' if p.m.throws else 'failed')
        return p.finish()
    return f


@strs.h(r'dyscostman::Dysco(Weight|Data)Column::Dysco(Weight|Data)Column\(')
def column_ctor(m, dem, args, I, st, path): return st, None


@strs.h(r'dyscostman::DyscoDataColumn::SetStaticRandomizationSeed\(')
def static_seed(m, dem, args, I, st, path): return st, None


@strs.h(r'^(void )?std::vector<std::unique_ptr<dyscostman::DyscoStManColumn.*::(push_back|emplace_back)(<.*>)?\(')
def columns_push(m, dem, args, I, st, path):
    # the element takes over the pointer
    v = m.load(st, args[1], PTR)
    m.lastcol = v
    m.store(st, args[1], NULL, PTR)
    return st, None


@strs.h(r'^std::vector<std::unique_ptr<dyscostman::DyscoStManColumn.*::back\(')
def columns_back(m, dem, args, I, st, path):
    # the address of the element that was added
    r = 'colslot!' + path
    m.region(vc.Region(r, None, arity=len(st.ctx), check=False))
    q = Ptr(r, st.ctx, icst(0))
    m.store(st, q, m.lastcol, PTR)
    return st, q


def dir_column(mod):
    p = start('makeDirArrColumn', mod, '@vf_dir', 'DyscoStMan::makeDirArrColumn')
    for r in 'DNI': p.region(r, None)
    t = z3.Int('type')
    p.requires(mk_and(t >= 0, t < 2**31))
    nm = strs.get(p.m, init(), Ptr('N', (), icst(0)))
    p.run([Ptr('D', (), icst(0)), Ptr('N', (), icst(0)), norm(t), Ptr('I', (), icst(0))], nothrow=False)
    w = ieq(nm, literal_of(p, 'WEIGHT_SPECTRUM'))
    fl, cx = enum(mod, 0, '@vf_ty'), enum(mod, 1, '@vf_ty')
    refused(p, 'WEIGHT_SPECTRUM of type float, or another column of type complex', mk_or(mk_and(w, ieq(norm(t), icst(fl))), mk_and(mk_not(w), ieq(norm(t), icst(cx)))))
    p.cover()
    return p.finish(kinds=())


def units(pid):
    if pid == 'C16':
        return [('spec-refused', 'DyscoStMan::setFromSpec', spec_refused), ('remove-row', 'DyscoStMan::removeRow', remove_row),
                ('prepare-dataBitCount', 'DyscoStMan::prepare', prepare('dataBitCount')), ('prepare-weightBitCount', 'DyscoStMan::prepare', prepare('weightBitCount')),
                ('makeScalarColumn', 'DyscoStMan::makeScalarColumn', never('@vf_scalar', 'makeScalarColumn')), ('makeIndArrColumn', 'DyscoStMan::makeIndArrColumn', never('@vf_ind', 'makeIndArrColumn')),
                ('makeDirArrColumn', 'DyscoStMan::makeDirArrColumn', dir_column)]
    if pid == 'C15':
        return [('spec-roundtrip', 'DyscoStMan::dataManagerSpec, setFromSpec', spec), ('new-from-spec', 'DyscoStMan(name, spec)', make),
                ('clone', 'DyscoStMan::clone', clone), ('setters', 'DyscoStMan::Set*', setters)]
    return []
