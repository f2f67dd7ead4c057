"""C13: the file header.  The layout below is the specification; writer and reader are each proved against it."""
from lib import *
import strs, streams
from quant import const_ret
from streams import POS, FAIL, SIZE

FLAGS = ['-fno-access-control']
KEEP = strs.KEEP + streams.KEEP
# documented order of the header: field, type in the file
HEAD = [('headerSize', '4'), ('columnHeaderOffset', '4'), ('columnCount', '4'), ('storageManagerName', 'text'), ('rowsPerBlock', '4'), ('antennaCount', '4'), ('blockSize', '4'),
        ('versionMajor', '2'), ('versionMinor', '2'), ('dataBitCount', '1'), ('weightBitCount', '1'), ('distribution', '1'), ('normalization', '1'), ('studentTNu', '8f'), ('distributionTruncation', '8f')]
COLH = [('columnHeaderSize', '4')]
EXTRA = [('_blockSize', '4'), ('_antennaCount', '4')]
MAN = ['_name', '_nRow', '_rowsPerBlock', '_nBlocksInFile', '_blockSize', '_headerSize', '_antennaCount', '_columns', '_fStream', '_dataBitCount', '_weightBitCount', '_distribution', '_normalization', '_studentTNu', '_distributionTruncation']
TYPES = [('cf', 'std::complex<float>', 'DyscoDataColumn'), ('f', 'float', 'DyscoWeightColumn')]


def driver():
    s = '''#include <cstddef>
#include "@REPO@/dyscostman.cc"
#include "@REPO@/threadeddyscocolumn.cc"
#include "@REPO@/dyscodatacolumn.cc"
#include "@REPO@/dyscoweightcolumn.cc"
using namespace dyscostman;
extern "C" void vf_hw(const Header* h, std::ostream* s) { h->Serialize(*s); }
extern "C" void vf_hr(Header* h, std::istream* s) { h->Unserialize(*s); }
extern "C" uint32_t vf_hoff(const Header* h) { return h->calculateColumnHeaderOffset(); }
extern "C" void vf_cw(const GenericColumnHeader* h, std::ostream* s) { h->GenericColumnHeader::Serialize(*s); }
extern "C" void vf_cr(GenericColumnHeader* h, std::istream* s) { h->GenericColumnHeader::Unserialize(*s); }
extern "C" uint32_t vf_csize(const GenericColumnHeader* h) { return h->GenericColumnHeader::calculateSize(); }
extern "C" void vf_wh(DyscoStMan* d) { d->writeHeader(); }
extern "C" void vf_rh(DyscoStMan* d) { d->readHeader(); }
extern "C" void vf_open(DyscoStMan* d, casacore::uInt n, casacore::AipsIO* a) { d->open(n, *a); }
extern "C" size_t vf_off_C_columnHeaderSize() { return __builtin_offsetof(GenericColumnHeader, columnHeaderSize); }
'''
    for f in MAN: s += 'extern "C" size_t vf_off_M_%s() { return __builtin_offsetof(DyscoStMan, %s); }\n' % (f, f)
    for f, t in HEAD: s += 'extern "C" size_t vf_off_H_%s() { return __builtin_offsetof(Header, %s); }\n' % (f, f)
    for k, t, _ in TYPES:
        c = 'ThreadedDyscoColumn<%s>' % t
        s += 'extern "C" void vf_xw_%s(const %s* c, std::ostream* s) { c->%s::SerializeExtraHeader(*s); }\n' % (k, c, c)
        s += 'extern "C" void vf_xr_%s(%s* c, std::istream* s) { c->%s::UnserializeExtraHeader(*s); }\n' % (k, c, c)
        s += 'extern "C" size_t vf_xs_%s(const %s* c) { return c->%s::ExtraHeaderSize(); }\n' % (k, c, c)
        for f, _ in EXTRA: s += 'extern "C" size_t vf_off_X%s_%s() { return __builtin_offsetof(%s, %s); }\n' % (k, f, c, f)
    return s


def init(): return vc.State((), {}, ())


def start(unit, mod, fn, target):
    p = Proof(unit, mod, fn, target)
    strs.install(p.m)
    streams.install(p.m)
    p.m.exact_trunc = True
    return p


class Lay:
    """positions of the fields of a record in the file, from a start"""

    def __init__(self, p, mod, spec, pre, obj):
        self.p, self.spec, self.obj = p, spec, obj
        self.off = {f: const_ret(mod, '@vf_off_%s_%s' % (pre, f)) for f, _ in spec}

    def field(self, f, t, st):
        p = self.p
        if t == 'text': return strs.get(p.m, st, Ptr(self.obj, (), icst(self.off[f])))
        return p.m.get_cell(st, (self.obj, self.off[f]), 'fp' if t in streams.ISFP else 'int').read((icst(0),))

    def positions(self, start, namelen):
        pos = start
        for f, t in self.spec:
            yield f, t, pos
            pos = iadd(pos, iadd(icst(4), namelen) if t == 'text' else icst(streams.SIZES[t]))
        self.end = pos


def unsigned_fields(p, L, wide=()):
    """the fields of the object hold values of their types"""
    for f, t in L.spec:
        if t == 'text' or t in streams.ISFP: continue
        v = L.field(f, t, init())
        w = 8 * streams.SIZES[t]
        p.m.nonneg_names |= {v.decl().name()}
        p.requires(mk_and(v >= 0, v < 2**w))


def written(p, L, R, P0, namelen, code):
    st = p.state
    s0 = init()
    m = p.m
    i, a = p.nat('i'), z3.Int('a')
    for f, t, pos in L.positions(P0, namelen):
        if t == 'text':
            p.ensures(f + ': length', mk_and(ieq(streams.content(m, st, R, '4', pos), namelen), streams.stored(m, st, R, '4', pos)))
            q = iadd(pos, iadd(icst(4), i))
            p.ensures(f + ': bytes', mk_imp(ilt(i, namelen), mk_and(ieq(streams.content(m, st, R, '1', q), norm(strs.SBYTE(code, i))), streams.stored(m, st, R, '1', q))), hints=[i])
        else:
            v, w = L.field(f, t, s0), streams.content(m, st, R, t, pos)
            p.ensures('%s is at its place' % f, mk_and(same_fv(v, w) if t in streams.ISFP else ieq(v, w), streams.stored(m, st, R, t, pos)), hints=[i])
    p.ensures('position after writing', ieq(streams.rd(m, st, R, POS), L.end))
    a = norm(a)
    p.ensures('bytes outside are left alone', mk_imp(mk_or(ilt(a, P0), ile(L.end, a)), ieq(streams.owner(m, st, R, a), streams.owner(m, s0, R, a))), hints=[a])


def readback(p, L, R, P0, namelen, okname=True):
    st, s0, m = p.state, init(), p.m
    good = mk_not(streams.rd(m, st, R, FAIL))
    for f, t, pos in L.positions(P0, namelen):
        if t == 'text':
            code = L.field(f, t, st)
            i = p.nat('i')
            p.ensures('%s has the length in the file' % f, mk_imp(good, ieq(norm(strs.SLEN(code)), streams.content(m, s0, R, '4', pos))))
            p.ensures('%s has the bytes in the file' % f, mk_imp(mk_and(good, ilt(i, norm(strs.SLEN(code)))), ieq(norm(strs.SBYTE(code, i)), streams.content(m, s0, R, '1', iadd(pos, iadd(icst(4), i))))), hints=[i])
        else:
            v, w = L.field(f, t, st), streams.content(m, s0, R, t, pos)
            p.ensures('%s is what the file holds' % f, mk_imp(good, same_fv(v, w) if t in streams.ISFP else ieq(m.uns(v, 8 * streams.SIZES[t]), w)))
    p.ensures('a record that is cut off is noticed', good == mk_and(mk_not(streams.rd(m, s0, R, FAIL)), ile(L.end, streams.rd(m, s0, R, SIZE))))
    p.ensures('position after reading', mk_imp(good, ieq(streams.rd(m, st, R, POS), L.end)))
    p.ensures('vacuity: reading can succeed', good) if False else None


def begin(p, R='S'):
    streams.object(p.m, R)
    P0 = streams.rd(p.m, init(), R, POS)
    p.requires(mk_and(P0 >= 0, P0 < 2**60))
    return P0


def head_write(mod):
    p = start('header-write', mod, '@vf_hw', 'Header::Serialize')
    p.region('H', None)
    p.m.read_only.add('H')
    P0 = begin(p)
    L = Lay(p, mod, HEAD, 'H', 'H')
    unsigned_fields(p, L)
    code = L.field('storageManagerName', 'text', init())
    n = strs.slen_fact(p.m, init(), code)
    p.requires(n < 2**32 - 64)
    p.run([Ptr('H', (), icst(0)), Ptr('S', (), icst(0))])
    written(p, L, 'S', P0, n, code)
    p.cover()
    return p.finish()


def head_size(mod):
    p = start('header-size', mod, '@vf_hoff', 'Header::calculateColumnHeaderOffset')
    p.region('H', None)
    p.m.read_only.add('H')
    L = Lay(p, mod, HEAD, 'H', 'H')
    code = L.field('storageManagerName', 'text', init())
    n = strs.slen_fact(p.m, init(), code)
    p.requires(n < 2**32 - 64)
    p.run([Ptr('H', (), icst(0))])
    for _ in L.positions(icst(0), n): pass
    p.ensures('is the number of bytes that are written', ieq(p.ret, L.end))
    p.cover()
    return p.finish()


def head_read(mod):
    p = start('header-read', mod, '@vf_hr', 'Header::Unserialize')
    p.region('H', None)
    P0 = begin(p)
    L = Lay(p, mod, HEAD, 'H', 'H')
    m = p.m
    lenpos = [pos for f, t, pos in L.positions(P0, icst(0)) if t == 'text'][0]
    n = streams.content(m, init(), 'S', '4', lenpos)
    p.run([Ptr('H', (), icst(0)), Ptr('S', (), icst(0))])
    readback(p, L, 'S', P0, n)
    p.cover()
    p.cover(pre=(mk_not(streams.rd(m, p.state, 'S', FAIL)),))
    return p.finish()


def small_write(unit, fn, spec, pre, target):
    def f(mod):
        p = start(unit, mod, fn, target)
        p.region('H', None)
        p.m.read_only.add('H')
        P0 = begin(p)
        L = Lay(p, mod, spec, pre, 'H')
        unsigned_fields(p, L)
        p.run([Ptr('H', (), icst(0)), Ptr('S', (), icst(0))])
        written(p, L, 'S', P0, None, None)
        p.cover()
        return p.finish()
    return f


def small_read(unit, fn, spec, pre, target):
    def f(mod):
        p = start(unit, mod, fn, target)
        p.region('H', None)
        P0 = begin(p)
        L = Lay(p, mod, spec, pre, 'H')
        p.run([Ptr('H', (), icst(0)), Ptr('S', (), icst(0))])
        readback(p, L, 'S', P0, None)
        p.cover()
        p.cover(pre=(mk_not(streams.rd(p.m, p.state, 'S', FAIL)),))
        return p.finish()
    return f


def small_size(unit, fn, size, target):
    def f(mod):
        p = start(unit, mod, fn, target)
        p.region('H', None)
        p.run([Ptr('H', (), icst(0))])
        p.ensures('is the number of bytes that are written', ieq(p.ret, icst(size)))
        p.cover()
        return p.finish()
    return f


VT = {'cf': '@_ZTVN10dyscostman15DyscoDataColumnE', 'f': '@_ZTVN10dyscostman17DyscoWeightColumnE'}
ISDATA = z3.Function('isdata', z3.IntSort(), z3.BoolSort())


class Manager:
    """a storage manager with any number of columns of both kinds and an open file"""

    def __init__(self, p, mod, ncols='nCols', stream=True):
        m = p.m
        self.p = p
        self.off = {f: const_ret(mod, '@vf_off_M_' + f) for f in MAN}
        self.n = p.nat(ncols)
        p.requires(self.n < 2**20)
        self.S = streams.object(m, 'S')
        for v in VT.values(): m.global_ptr(v)
        vptr = lambda j, _: Choice([(ISDATA(j), Ptr(VT['cf'], (), icst(16))), (mk_not(ISDATA(j)), Ptr(VT['f'], (), icst(16)))])
        p.region('COL', None, arity=1, fields={0: vptr})
        r = p.region('COLS', 8, self.n, fields={0: lambda j: Ptr('COL', (j,), icst(0))})
        r.layout = {0: 'ptr'}
        c = self.off['_columns']
        end = Ptr('COLS', (), imul(icst(8), self.n))
        p.region('D', None, fields={c: Ptr('COLS', (), icst(0)), c + 8: end, c + 16: end, self.off['_fStream']: self.S if stream else Ptr('NULL', (), icst(0))})
        self.xoff = {(k, f): const_ret(mod, '@vf_off_X%s_%s' % (k, f)) for k, _, _ in TYPES for f, _ in EXTRA}
        # the two kinds of column share the layout of their base class
        if any(self.xoff[('cf', f)] != self.xoff[('f', f)] for f, _ in EXTRA): raise Unsupported('columns of different layout')
        x, y = z3.Int('cx_'), z3.Int('cy_')
        for f, _ in EXTRA:
            d = m.get_cell(init(), ('COL', self.xoff[('cf', f)]), 'int').base.decls[0]
            m.nonneg_names = m.nonneg_names | {d.name()}
            m.add_fact([d], (x, y), mk_and(d(x, y) >= 0, d(x, y) < 2**32))

    def get(self, f, st, kind='int'):
        if kind == 'text': return strs.get(self.p.m, st, Ptr('D', (), icst(self.off[f])))
        return self.p.m.get_cell(st, ('D', self.off[f]), kind).read((icst(0),))

    def col(self, f, j, st):
        return self.p.m.get_cell(st, ('COL', self.xoff[('cf', f)]), 'int').read((j, icst(0)))


def write_header(mod):
    p = start('writeHeader', mod, '@vf_wh', 'DyscoStMan::writeHeader')
    M = Manager(p, mod)
    m = p.m
    p.requires(mk_not(streams.rd(m, init(), 'S', FAIL)))
    name = M.get('_name', init(), 'text')
    n = strs.slen_fact(m, init(), name)
    p.requires(n < 2**20)
    for f in ('_dataBitCount', '_weightBitCount', '_distribution', '_normalization'): p.requires(mk_and(M.get(f, init()) >= 0, M.get(f, init()) < 256))
    p.run([Ptr('D', (), icst(0))])
    st, s0 = p.state, init()
    L = Lay(p, mod, HEAD, 'H', 'H')
    j, i = p.nat('j'), p.nat('i')
    inj = ilt(j, M.n)
    pos = dict((f, q) for f, t, q in L.positions(icst(0), n))
    hoff = L.end
    own = lambda t, q: streams.stored(m, st, 'S', t, q)
    cont = lambda t, q: streams.content(m, st, 'S', t, q)
    val = {'headerSize': M.get('_headerSize', st), 'columnHeaderOffset': hoff, 'columnCount': M.n, 'rowsPerBlock': M.get('_rowsPerBlock', s0), 'antennaCount': M.get('_antennaCount', s0), 'blockSize': M.get('_blockSize', s0),
           'versionMajor': icst(1), 'versionMinor': icst(0), 'dataBitCount': M.get('_dataBitCount', s0), 'weightBitCount': M.get('_weightBitCount', s0), 'distribution': M.get('_distribution', s0), 'normalization': M.get('_normalization', s0),
           'studentTNu': M.get('_studentTNu', s0, 'fp'), 'distributionTruncation': M.get('_distributionTruncation', s0, 'fp')}
    for f, t in HEAD:
        q = pos[f]
        if t == 'text':
            p.ensures(f + ': length', mk_and(ieq(cont('4', q), n), own('4', q)))
            q = iadd(q, iadd(icst(4), i))
            p.ensures(f + ': bytes', mk_imp(ilt(i, n), mk_and(ieq(cont('1', q), norm(strs.SBYTE(name, i))), own('1', q))), hints=[i])
        else:
            w = cont(t, q)
            v = val[f]
            p.ensures('%s of the manager is at its place' % f, mk_and(same_fv(v, w) if t in streams.ISFP else ieq(m.uns(v, 8 * streams.SIZES[t]), w), own(t, q)))
    cstart = iadd(hoff, imul(icst(12), j))
    p.ensures('header of column j: announces its size', mk_imp(inj, mk_and(ieq(cont('4', cstart), icst(12)), own('4', cstart))), hints=[j])
    for k, f in enumerate(('_blockSize', '_antennaCount')):
        q = iadd(cstart, icst(4 + 4 * k))
        p.ensures('header of column j: %s' % f, mk_imp(inj, mk_and(ieq(cont('4', q), m.uns(M.col(f, j, s0), 32)), own('4', q))), hints=[j])
    p.ensures('the announced header size covers all headers', ile(iadd(hoff, imul(icst(12), M.n)), m.uns(M.get('_headerSize', st), 32)))
    p.cover()
    return p.finish()


def reader(p, mod, M):
    """the places where a reader must find the column headers, and the loop over them"""
    m = p.m
    s0 = init()
    L = Lay(p, mod, HEAD, 'H', 'H')
    lenpos = [q for f, t, q in L.positions(icst(0), icst(0)) if t == 'text'][0]
    namelen = streams.content(m, s0, 'S', '4', lenpos)
    pos = {f: (t, q) for f, t, q in L.positions(icst(0), namelen)}
    inf = lambda f: streams.content(m, s0, 'S', pos[f][0], pos[f][1])
    OFF = z3.Function('OFF', z3.IntSort(), z3.IntSort())
    m.nonneg_names = m.nonneg_names | {'OFF'}
    x = z3.Int('of_')
    c4 = lambda q: streams.content(m, s0, 'S', '4', q)
    m.add_fact([OFF], (x,), mk_and(OFF(x) >= 0, mk_imp(x == 0, ieq(norm(OFF(x)), inf('columnHeaderOffset'))), mk_imp(x >= 1, ieq(norm(OFF(x)), iadd(norm(OFF(x - 1)), c4(norm(OFF(x - 1))))))))
    FK = (streams.ghost(m, 'S'), FAIL)
    w = p.nat('w')
    SZ = streams.rd(m, s0, 'S', SIZE)

    def tmpl(m, lc):
        out = []
        for i, hv in enumerate(lc.hvals):
            if FK in lc.hst.mem and z3.is_expr(hv) and z3.is_int(hv) and any(a.decl().name().startswith('phi!') for a in vc.apps_in(hv)):
                out.append(vc.Cand('column offset', ('phi', i), lambda vw, K, x, i=i: mk_or(vw.cell(FK).read((icst(0),)), ieq(vw.phis[i], norm(OFF(K))))))
        if FK in lc.hst.mem:
            out.append(vc.Cand('readable so far', 'R', lambda vw, K, x: mk_not(vw.cell(FK).read((icst(0),)))))
            out.append(vc.Cand('failure is kept', 'R', lambda vw, K, x: mk_imp(mk_and(ilt(w, K), mk_not(vw.cell(FK).read((icst(0),)))), ile(iadd(norm(OFF(w)), icst(12)), SZ))))
        return out
    m.templates.append(tmpl)
    good = mk_and(mk_not(streams.rd(m, s0, 'S', FAIL)) if not getattr(m, 'one_file', None) else T, ile(L.end, SZ), ieq(inf('versionMajor'), icst(1)), ieq(inf('versionMinor'), icst(0)), ieq(inf('columnCount'), M.n))
    return inf, OFF, w, SZ, good, namelen, pos


def read_header(pid):
    def f(mod):
        p = start('readHeader', mod, '@vf_rh', 'DyscoStMan::readHeader')
        M = Manager(p, mod)
        m = p.m
        inf, OFF, w, SZ, good, namelen, pos = reader(p, mod, M)
        if pid == 'C13':
            # every column header is in the file
            x = z3.Int('of2_')
            m.add_fact([OFF], (x,), mk_imp(mk_and(x >= 0, ilt(x, M.n)), ile(iadd(norm(OFF(x)), icst(12)), SZ)))
        p.run([Ptr('D', (), icst(0))], nothrow=False)
        if p.state is None: raise Stop()
        st = p.state
        if pid == 'C16':
            p.ensures('a file is accepted only with version 1.0, the number of columns of the table and a complete header', good)
            p.ensures('the stream has failed when a column header is cut off', mk_imp(mk_and(ilt(w, M.n), ilt(SZ, iadd(norm(OFF(w)), icst(12)))), streams.rd(m, st, 'S', FAIL)), hints=[w])
            p.res.add('vacuity: an exception is thrown', 'cover', 'proved' if m.throws else 'failed')
        else:
            for i, (s_, what, path) in enumerate(m.throws): p.ensures('a complete header of a matching table is accepted (throw %d)' % i, mk_not(good), st=s_)
            i, j = p.nat('i'), p.nat('j')
            mf = {'dataBitCount': '_dataBitCount', 'weightBitCount': '_weightBitCount', 'distribution': '_distribution', 'normalization': '_normalization', 'studentTNu': '_studentTNu', 'distributionTruncation': '_distributionTruncation',
                  'rowsPerBlock': '_rowsPerBlock', 'antennaCount': '_antennaCount', 'blockSize': '_blockSize', 'headerSize': '_headerSize'}
            for f_, g_ in mf.items():
                if pos[f_][0] in streams.ISFP: p.ensures('%s is what the file holds' % g_, same_fv(M.get(g_, st, 'fp'), inf(f_)))
                else: p.ensures('%s is what the file holds' % g_, ieq(m.uns(M.get(g_, st), 32), inf(f_)))
            name = M.get('_name', st, 'text')
            p.ensures('the name has the length in the file', ieq(norm(strs.SLEN(name)), namelen))
            p.ensures('the name has the bytes in the file', mk_imp(ilt(i, namelen), ieq(norm(strs.SBYTE(name, i)), streams.content(m, init(), 'S', '1', iadd(pos['storageManagerName'][1], iadd(icst(4), i))))), hints=[i])
            for k, f_ in enumerate(('_blockSize', '_antennaCount')):
                p.ensures('column j: %s is read from its place' % f_, mk_imp(ilt(j, M.n), ieq(M.col(f_, j, st), streams.content(m, init(), 'S', '4', iadd(norm(OFF(j)), icst(4 + 4 * k))))), hints=[j])
            p.ensures('all columns could be read', mk_not(streams.rd(m, st, 'S', FAIL)))
        p.cover()
        p.cover(pre=(mk_not(streams.rd(m, st, 'S', FAIL)), ilt(icst(1), M.n)))
        return p.finish()
    return f


def open_file(mod):
    p = start('open', mod, '@vf_open', 'DyscoStMan::open')
    M = Manager(p, mod, stream=False)
    m = p.m
    m.one_file = 'S'
    inf, OFF, w, SZ, good, namelen, pos = reader(p, mod, M)
    p.region('AIO', None)
    nr = p.nat('nr')
    p.requires(nr < 2**32)
    # a file with data was made by a manager with a block size (a zero there divides by zero)
    p.requires(inf('blockSize') >= 1)
    p.run([Ptr('D', (), icst(0)), nr, Ptr('AIO', (), icst(0))], nothrow=False)
    if p.state is None: raise Stop()
    p.ensures('opened only with version 1.0, the number of columns of the table and a complete header', good)
    p.ensures('opened only when all column headers are complete', mk_imp(ilt(w, M.n), ile(iadd(norm(OFF(w)), icst(12)), SZ)), hints=[w])
    p.res.add('vacuity: an exception is thrown', 'cover', 'proved' if m.throws else 'failed')
    p.cover()
    return p.finish()


def units(pid):
    if pid == 'C16': return [('readHeader', 'DyscoStMan::readHeader', read_header(pid)), ('open', 'DyscoStMan::open', open_file), ('header-read', 'Header::Unserialize', head_read)]
    out = [('header-write', 'Header::Serialize', head_write), ('header-size', 'Header::calculateColumnHeaderOffset', head_size), ('header-read', 'Header::Unserialize', head_read),
           ('column-header-write', 'GenericColumnHeader::Serialize', small_write('column-header-write', '@vf_cw', COLH, 'C', 'GenericColumnHeader::Serialize')),
           ('column-header-read', 'GenericColumnHeader::Unserialize', small_read('column-header-read', '@vf_cr', COLH, 'C', 'GenericColumnHeader::Unserialize')),
           ('column-header-size', 'GenericColumnHeader::calculateSize', small_size('column-header-size', '@vf_csize', 4, 'GenericColumnHeader::calculateSize'))]
    for k, t, _ in TYPES:
        c = 'ThreadedDyscoColumn<%s>' % t
        out += [('extra-write-' + k, c + '::SerializeExtraHeader', small_write('extra-write-' + k, '@vf_xw_' + k, EXTRA, 'X' + k, c + '::SerializeExtraHeader')),
                ('extra-read-' + k, c + '::UnserializeExtraHeader', small_read('extra-read-' + k, '@vf_xr_' + k, EXTRA, 'X' + k, c + '::UnserializeExtraHeader')),
                ('extra-size-' + k, c + '::ExtraHeaderSize', small_size('extra-size-' + k, '@vf_xs_' + k, 8, c + '::ExtraHeaderSize'))]
    return out + [('writeHeader', 'DyscoStMan::writeHeader', write_header), ('readHeader', 'DyscoStMan::readHeader', read_header(pid))]
