"""C14: where blocks and columns are in the file."""
import re, z3
from lib import *
import strs, streams, headers
from headers import Manager, init, TYPES, MAN, EXTRA, VT
from quant import const_ret
from streams import POS, FAIL, SIZE
from ir import I32, I64

FLAGS = ['-fno-access-control']
KEEP = strs.KEEP + streams.KEEP + [r'::CalculateBlockSize\(', r'::InitializeAfterNRowsPerBlockIsKnown\(', r'DyscoStMan::writeHeader\(', r'BytePacker::(un)?pack\(', r'::writeCompressedData\(', r'::readCompressedData\(']
CF = ['_bitsPerSymbol', '_shape', '_blockSize', '_antennaCount', '_timeBlockBuffer']
DEC = ['@_ZTV19RowTimeBlockEncoder', '@_ZTV18RFTimeBlockEncoder', '@_ZTV18AFTimeBlockEncoder']
COLF = ['_offsetInBlock', '_storageManager']


def driver():
    s = headers.driver() + ''.join('#include "@REPO@/%stimeblockencoder.cc"\n' % e for e in ('row', 'rf', 'af')) + '''
extern "C" void vf_rows(const DyscoStMan* d, uint64_t row, uint64_t* o) { o[0] = d->getBlockIndex(row); o[1] = d->getRowWithinBlock(row); o[2] = d->getRowIndex(o[0]); }
extern "C" void vf_inv(const DyscoStMan* d, uint64_t b, uint64_t w, uint64_t* o) { uint64_t r = d->getRowIndex(b) + w; o[0] = d->getBlockIndex(r); o[1] = d->getRowWithinBlock(r); }
extern "C" void vf_write(DyscoStManColumn* c, size_t b, const unsigned char* data, size_t n) { c->writeCompressedData(b, data, n); }
extern "C" void vf_read(DyscoStManColumn* c, size_t b, unsigned char* data, size_t n) { c->readCompressedData(b, data, n); }
extern "C" void vf_init(DyscoStMan* d, size_t r, size_t a, bool h) { d->initializeRowsPerBlock(r, a, h); }
'''
    for k, t, c in TYPES:
        s += 'extern "C" void vf_eaw_%s(%s* c, size_t b, const %s::CacheItem* i, unsigned char* p, unsigned* u, %s::ThreadDataBase* d, size_t r, size_t a, size_t* o) { *o = c->CalculateBlockSize(r, a); c->encodeAndWrite(b, *i, p, u, d); }\n' % (k, c, c, c)
        for f in CF: s += 'extern "C" size_t vf_off_Y%s_%s() { return __builtin_offsetof(ThreadedDyscoColumn<%s>, %s); }\n' % (k, f, t, f)
    s += 'extern "C" size_t vf_off_IP() { return __builtin_offsetof(casacore::IPosition, data_p); }\n'
    for n_, c, f in (('dec', 'DyscoDataColumn', '_decoder'), ('enc', 'DyscoWeightColumn', '_encoder'), ('wch', 'WeightBlockEncoder', '_nChannels')): s += 'extern "C" size_t vf_off_%s() { return __builtin_offsetof(%s, %s); }\n' % (n_, c, f)
    for f in COLF: s += 'extern "C" size_t vf_off_K_%s() { return __builtin_offsetof(DyscoStManColumn, %s); }\n' % (f, f)
    return s


def start(unit, mod, fn, target):
    p = headers.start(unit, mod, fn, target)
    p.koff = {f: const_ret(mod, '@vf_off_K_' + f) for f in COLF}
    return p


def rows(mod):
    p = start('row-to-block', mod, '@vf_rows', 'DyscoStMan::getBlockIndex, getRowWithinBlock, getRowIndex')
    M = Manager(p, mod)
    R = M.get('_rowsPerBlock', init())
    p.m.nonneg_names |= {R.decl().name()}
    p.requires(mk_and(R >= 1, R < 2**32))
    row = p.nat('row')
    p.region('O', 8, icst(3))
    p.run([Ptr('D', (), icst(0)), row, Ptr('O', (), icst(0))])
    b, w, f = (p.cell('O', 0, 'int', [icst(i)]) for i in range(3))
    p.ensures('the first row of the block plus the row within the block is the row', ieq(iadd(f, w), row))
    p.ensures('the row within the block is below the rows per block', mk_and(ile(icst(0), w), ilt(w, R)))
    p.ensures('the block begins at its number times the rows per block', ieq(f, imul(b, R)))
    p.cover()
    return p.finish()


def rows_inv(mod):
    p = start('block-to-row', mod, '@vf_inv', 'DyscoStMan::getRowIndex, getBlockIndex, getRowWithinBlock')
    M = Manager(p, mod)
    R = M.get('_rowsPerBlock', init())
    p.m.nonneg_names |= {R.decl().name()}
    p.requires(mk_and(R >= 1, R < 2**32))
    b, w = p.nat('b'), p.nat('w')
    p.requires(mk_and(ilt(w, R), b < 2**28))
    p.region('O', 8, icst(2))
    p.run([Ptr('D', (), icst(0)), b, w, Ptr('O', (), icst(0))])
    p.ensures('the block of a row of block b is b', ieq(p.cell('O', 0, 'int', [icst(0)]), b))
    p.ensures('the row within the block is found again', ieq(p.cell('O', 0, 'int', [icst(1)]), w))
    p.cover()
    return p.finish()


def column(p, M):
    """one column of the manager"""
    p.region('K', None, fields={p.koff['_storageManager']: Ptr('D', (), icst(0))})
    off = p.m.get_cell(init(), ('K', p.koff['_offsetInBlock']), 'int').read((icst(0),))
    bs, hs, nb = (M.get(f, init()) for f in ('_blockSize', '_headerSize', '_nBlocksInFile'))
    p.m.nonneg_names |= {v.decl().name() for v in (off, bs, hs, nb)}
    for v, top in ((off, 2**32), (bs, 2**32), (hs, 2**32), (nb, 2**60)): p.requires(mk_and(v >= 0, v < top))
    return off, bs, hs, nb


def write(mod):
    p = start('write', mod, '@vf_write', 'DyscoStMan::writeCompressedData')
    M = Manager(p, mod)
    m = p.m
    off, bs, hs, nb = column(p, M)
    b, n = p.nat('b'), p.nat('size')
    p.requires(mk_and(b < 2**28, n < 2**32))
    p.region('data', 1, n)
    m.read_only.add('data')
    m.read_only.add('K')
    m.io_errors = True
    s0 = init()
    p.run([Ptr('K', (), icst(0)), b, Ptr('data', (), icst(0)), n], nothrow=False)
    st = p.state
    if st is None: raise Stop()
    at = iadd(hs, iadd(imul(bs, b), off))
    i, a = p.nat('i'), norm(z3.Int('a'))
    byte = m.get_cell(s0, ('data', 0), 'int').read((i,))
    q = iadd(at, i)
    p.ensures('the bytes are stored behind the header, at the place of the column in the block', mk_imp(ilt(i, n), mk_and(ieq(streams.content(m, st, 'S', '1', q), byte), streams.stored(m, st, 'S', '1', q))), hints=[i])
    p.ensures('no other byte of the file is written', mk_imp(mk_or(ilt(a, at), ile(iadd(at, n), a)), ieq(streams.owner(m, st, 'S', a), streams.owner(m, s0, 'S', a))), hints=[a])
    p.ensures('the block is counted', ieq(M.get('_nBlocksInFile', st), iite(ilt(b, nb), nb, iadd(b, icst(1)))))
    p.ensures('success is only reported when the stream has not failed', mk_not(streams.rd(m, st, 'S', FAIL)))
    for f in ('_blockSize', '_headerSize', '_rowsPerBlock'): p.ensures('%s is left alone' % f, ieq(M.get(f, st), M.get(f, s0)))
    p.cover()
    return p.finish()


def read(mod):
    p = start('read', mod, '@vf_read', 'DyscoStMan::readCompressedData')
    M = Manager(p, mod)
    m = p.m
    off, bs, hs, nb = column(p, M)
    b, n = p.nat('b'), p.nat('size')
    p.requires(mk_and(b < 2**28, n < 2**32))
    p.region('data', 1, n)
    m.read_only.add('K')
    s0 = init()
    p.requires(mk_not(streams.rd(m, s0, 'S', FAIL)))
    SZ = streams.rd(m, s0, 'S', SIZE)
    p.run([Ptr('K', (), icst(0)), b, Ptr('data', (), icst(0)), n], nothrow=False)
    st = p.state
    if st is None: raise Stop()
    at = iadd(hs, iadd(imul(bs, b), off))
    i = p.nat('i')
    q = iadd(at, i)
    byte = m.get_cell(st, ('data', 0), 'int').read((i,))
    p.ensures('the bytes come from the place of the column in the block', mk_imp(mk_and(ilt(i, n), ilt(q, SZ)), ieq(m.uns(byte, 8), streams.content(m, s0, 'S', '1', q))), hints=[i])
    p.ensures('bytes behind the end of the file read as zero', mk_imp(mk_and(ilt(i, n), ile(SZ, q)), ieq(byte, icst(0))), hints=[i])
    p.ensures('a short read is only accepted in the last block', mk_or(ile(iadd(at, n), SZ), ieq(iadd(b, icst(1)), nb)))
    p.ensures('the stream can be used afterwards', mk_not(streams.rd(m, st, 'S', FAIL)))
    p.cover()
    p.cover(pre=(ilt(SZ, iadd(at, n)),))
    return p.finish()


def offsets(mod):
    """initializeRowsPerBlock with any number of columns of both kinds"""
    p = start('column-offsets', mod, '@vf_init', 'DyscoStMan::initializeRowsPerBlock')
    M = Manager(p, mod)
    m = p.m
    s0 = init()
    R, A = p.nat('r'), p.nat('a')
    bs, hs, R0, A0 = (M.get(f, s0) for f in ('_blockSize', '_headerSize', '_rowsPerBlock', '_antennaCount'))
    m.nonneg_names |= {v.decl().name() for v in (bs, hs, R0, A0)}
    p.requires(mk_and(R >= 1, R < 2**32, A < 2**32))
    for v in (bs, hs, R0, A0): p.requires(mk_and(v >= 0, v < 2**32))
    for f in p.koff: p.koff[f] = const_ret(mod, '@vf_off_K_' + f)
    m.get_cell(s0, ('COL', p.koff['_offsetInBlock']), 'int')
    # the size of a column (the contract of CalculateBlockSize) and the sum over the columns before j
    I = z3.IntSort()
    BS, SUM = z3.Function('BS', I, I, I, I), z3.Function('SUM', I, I)
    m.nonneg_names |= {'BS', 'SUM'}
    x, y, z = z3.Ints('sx_ sy_ sz_')
    m.add_fact([BS], (x, y, z), BS(x, y, z) >= 0)
    one = lambda j: norm(BS(j, R, A))
    m.add_fact([SUM], (x,), mk_and(SUM(x) >= 0, SUM(x) < 2**32, mk_imp(x == 0, SUM(x) == 0), mk_imp(x >= 1, ieq(norm(SUM(x)), iadd(norm(SUM(x - 1)), norm(BS(x - 1, R, A)))))))
    calls = []

    def size(m, dem, args, I, st, path):
        alts = m.resolve_alts(st, args[0])
        if any(q.reg != 'COL' for _, q in alts) or len({repr(q) for _, q in alts}) != 1: raise Unsupported('block size of %r' % (args[0],))
        return st, norm(BS(alts[0][1].fam[0], args[1], args[2]))

    def nothing(m, dem, args, I, st, path): return st, None

    def header(m, dem, args, I, st, path):
        calls.append(path)
        # the contract of writeHeader (property C13): the header size becomes that of the header, the file changes
        v = norm(z3.Int('hs!' + path))
        m.nonneg_names |= {'hs!' + path}
        m.store(st, Ptr('D', (), icst(M.off['_headerSize'])), v, I32)
        return st, None
    m.contracts += [(re.compile(r_), f_) for r_, f_ in ((r'::CalculateBlockSize\(', size), (r'::InitializeAfterNRowsPerBlockIsKnown\(', nothing), (r'DyscoStMan::writeHeader\(', header))]
    BK, OK = ('D', M.off['_blockSize']), ('COL', p.koff['_offsetInBlock'])
    w = p.nat('w')

    def tmpl(m, lc):
        out = []
        if BK in lc.hst.mem:
            out.append(vc.Cand('size so far', ('mem', BK), lambda vw, K, x: ieq(m.uns(vw.cell(BK).read((icst(0),)), 32), norm(SUM(K)))))
        if OK in lc.hst.mem:
            out.append(vc.Cand('offsets so far', ('cell', OK), lambda vw, K, x: mk_imp(mk_and(ile(icst(0), norm(x[0])), ilt(norm(x[0]), K), x[1] == 0), ieq(vw.cell(OK).read((norm(x[0]), norm(x[1]))), norm(SUM(norm(x[0]))))), [z3.Int('ow_'), z3.Int('oo_')]))
        return out
    m.templates.append(tmpl)
    h = z3.Bool('writeToHeader')
    p.run([Ptr('D', (), icst(0)), R, A, h], nothrow=False)
    st = p.state
    if st is None: raise Stop()
    off = lambda j: m.get_cell(st, OK, 'int').read((j, icst(0)))
    p.ensures('the offset of column w is the sum of the sizes of the columns before it', mk_imp(ilt(w, M.n), ieq(off(w), norm(SUM(w)))), hints=[w])
    p.ensures('the size of a block is the sum of the sizes of all columns', ieq(m.uns(M.get('_blockSize', st), 32), norm(SUM(M.n))))
    p.ensures('the rows per block are set', ieq(m.uns(M.get('_rowsPerBlock', st), 32), R))
    p.ensures('the number of antennas is set', ieq(m.uns(M.get('_antennaCount', st), 32), A))
    for s_, what, path in m.throws: p.ensures('refused only when the sizes are already known and differ', mk_and(mk_not(ieq(R0, icst(0))), mk_or(mk_not(ieq(R, R0)), mk_not(ieq(A, A0)))), st=s_)
    p.res.add('the header is rewritten on request', 'ensures', 'proved' if calls else 'failed')
    p.cover()
    # lemma: a column ends before every later column begins, by induction on the later column
    j, k = p.nat('j'), p.nat('k')
    E = lambda j: iadd(norm(SUM(j)), one(j))
    p.ensures('lemma, base: the next column begins where column j ends', ieq(norm(SUM(iadd(j, icst(1)))), E(j)), hints=[j, iadd(j, icst(1))])
    p.ensures('lemma, step: the column after k begins no earlier than column k', ile(norm(SUM(k)), norm(SUM(iadd(k, icst(1))))), hints=[k, iadd(k, icst(1))])
    b, c = p.nat('b'), p.nat('c')
    H, B = p.nat('H'), norm(SUM(M.n))
    reg = lambda b, j: (iadd(H, iadd(imul(B, b), norm(SUM(j)))), iadd(H, iadd(imul(B, b), E(j))))
    order = lambda u, v: mk_imp(ilt(u, v), ile(E(u), norm(SUM(v))))
    pre = (ilt(j, M.n), ilt(k, M.n), order(j, k), order(k, j), order(j, M.n), order(k, M.n))
    (s1, e1), (s2, e2) = reg(b, j), reg(c, k)
    # nonlinear step: a later block begins at least one block size later
    d = p.nat('d')
    pre1 = pre + (ieq(c, iadd(iadd(b, icst(1)), d)),)
    p.ensures('the region of a column lies behind the header', ile(H, s1), pre=pre)
    p.ensures('regions in an earlier and a later block do not overlap', ile(e1, s2), pre=pre1 + (ile(icst(0), imul(B, d)),))
    p.ensures('arithmetic of the lemma', ile(icst(0), imul(B, d)))
    p.ensures('regions of two columns in one block do not overlap', mk_or(ile(e1, s2), ile(e2, s1)), pre=pre + (ieq(b, c), mk_not(ieq(j, k))))
    return p.finish()


def offset_table(mod, k):
    o = {f: const_ret(mod, '@vf_off_Y%s_%s' % (k, f)) for f in CF}
    for n in ('IP', 'dec', 'enc', 'wch'): o[n] = const_ret(mod, '@vf_off_' + n)
    return o


class Column:
    """one data or weight column, with every normalization"""

    def __init__(self, p, mod, k, extra=None):
        m = p.m
        self.p, self.k = p, k
        self.o = o = offset_table(mod, k)
        m.global_ptr(VT[k])
        fields = {0: Ptr(VT[k], (), icst(16)), p.koff['_storageManager']: Ptr('D', (), icst(0)), o['_shape'] + o['IP']: Ptr('SHAPE', (), icst(0))}
        p.region('SHAPE', 8, icst(2))
        self.shape = [norm(z3.Int('nPol')), norm(z3.Int('nChan'))]
        sh = m.get_cell(init(), ('SHAPE', 0), 'int')
        for i, v in enumerate(self.shape):
            m.nonneg_names |= {v.decl().name()}
            p.requires(mk_and(ieq(sh.read((icst(i),)), v), v >= 1, v < 2**20))
        if k == 'cf':
            fields[o['dec']] = Ptr('DEC', (), icst(0))
            for v in DEC: m.global_ptr(v)
            self.norm = norm(z3.Int('normalization'))
            p.requires(mk_and(self.norm >= 0, self.norm < 3))
            p.region('DEC', None, fields={0: Choice([(ieq(self.norm, icst(i)), Ptr(v, (), icst(16))) for i, v in enumerate(DEC)])})
        else:
            fields[o['enc']] = Ptr('ENC', (), icst(0))
            p.region('ENC', None)
            ch = m.get_cell(init(), ('ENC', o['wch']), 'int').read((icst(0),))
            p.requires(ieq(ch, self.shape[1]))
        fields.update(extra(o) if extra else {})
        p.region('K', None, fields=fields)
        self.bits, self.bs, self.na = (self.get(f, init()) for f in ('_bitsPerSymbol', '_blockSize', '_antennaCount'))
        m.nonneg_names |= {v.decl().name() for v in (self.bits, self.bs, self.na)}
        p.requires(mk_or(*[ieq(self.bits, icst(b)) for b in (2, 3, 4, 6, 8, 10, 12, 16)]))
        for v, top in ((self.bs, 2**32), (self.na, 2**20)): p.requires(mk_and(v >= 0, v < top))

    def get(self, f, st, kind='int'): return self.p.m.get_cell(st, ('K', self.o[f]), kind).read((icst(0),))

    def counts(self, nrow, na=None):
        """metadata floats and symbols in a block (the specification)"""
        if na is None: na = self.na
        np_, nc = self.shape
        if self.k == 'f': return icst(1), imul(nrow, nc)
        rows, rf, af = nrow, imul(np_, iadd(nc, nrow)), imul(np_, iadd(nc, na))
        return iite(ieq(self.norm, icst(0)), rows, iite(ieq(self.norm, icst(1)), rf, af)), imul(imul(imul(nrow, nc), np_), icst(2))


def size(k):
    cls = [c for x, t, c in TYPES if x == k][0]

    def f(mod):
        p = start('block-size-' + k, mod, '@vf_eaw_' + k, '%s::encodeAndWrite, CalculateBlockSize' % cls)
        m = p.m
        M = Manager(p, mod)
        C = Column(p, mod, k)
        R = M.get('_rowsPerBlock', init())
        m.nonneg_names |= {R.decl().name()}
        p.requires(mk_and(R >= 1, R < 2**20))
        meta, nsym = C.counts(R)
        p.region('ITEM', None, fields={0: Ptr('BUF', (), icst(0))})
        p.region('BUF', None)
        packed, unpacked = 'PACKED', 'SYM'
        bsz = idiv(iadd(imul(nsym, C.bits), icst(7)), icst(8))
        total = iadd(imul(icst(4), meta), bsz)
        p.region(packed, 1, total)
        p.region(unpacked, 4, nsym)
        p.region('O', 8, icst(1))
        p.region('TD', None)
        # the size that is asked for before the column knows it: other rows and antennas than those of the column
        R2, A2 = p.nat('rows2'), p.nat('antennas2')
        p.requires(mk_and(R2 >= 1, R2 < 2**20, A2 < 2**20))
        meta2, nsym2 = C.counts(R2, A2)
        total2 = iadd(imul(icst(4), meta2), idiv(iadd(imul(nsym2, C.bits), icst(7)), icst(8)))
        calls = []

        def encode(m, dem, args, I, st, path):
            q, b, mb, sb, na = args[1:6]
            calls.append('encode')
            m.obligation('encode: the buffer of the item', 'requires', st, T if isinstance(b, Ptr) and b.reg == 'BUF' else F)
            m.obligation('encode: the metadata comes first in the block', 'requires', st, mk_and(T if isinstance(mb, Ptr) and mb.reg == packed else F, ieq(mb.off, icst(0))))
            m.obligation('encode: room for the symbols', 'requires', st, mk_and(T if isinstance(sb, Ptr) and sb.reg == unpacked else F, ieq(sb.off, icst(0))))
            m.obligation('encode: the number of antennas', 'requires', st, ieq(na, C.na))
            return st, None

        def pack(m, dem, args, I, st, path):
            calls.append('pack')
            b, d, s_, n = args
            m.obligation('pack: the bit rate of the column', 'requires', st, ieq(b, C.bits))
            m.obligation('pack: all symbols', 'requires', st, mk_and(T if s_.reg == unpacked else F, ieq(s_.off, icst(0)), ieq(n, nsym)))
            m.obligation('pack: the symbols come behind the metadata', 'requires', st, mk_and(T if d.reg == packed else F, ieq(d.off, imul(icst(4), meta))))
            m.obligation('pack: the packed bytes fit in the block', 'requires', st, ile(iadd(d.off, bsz), total))
            return st, None
        blk = p.nat('blk')

        def wcd(m, dem, args, I, st, path):
            calls.append('write')
            m.obligation('write: the block that was given', 'requires', st, ieq(args[1], blk))
            m.obligation('write: from the begin of the packed block', 'requires', st, mk_and(T if args[2].reg == packed else F, ieq(args[2].off, icst(0))))
            m.obligation('write: the bytes of one block', 'requires', st, ieq(args[3], total))
            return st, None
        m.contracts += [(re.compile(r_), f_) for r_, f_ in ((r'::encode\(', encode), (r'BytePacker::pack\(', pack), (r'DyscoStManColumn::writeCompressedData\(', wcd))]
        P = lambda r: Ptr(r, (), icst(0))
        p.run([P('K'), blk, P('ITEM'), P(packed), P(unpacked), P('TD'), R2, A2, P('O')])
        p.ensures('the size of a block is what its metadata and packed symbols take', ieq(p.cell('O', 0, 'int', [icst(0)]), total2))
        p.ensures('that is the number of bytes that are stored', mk_imp(mk_and(ieq(R2, R), ieq(A2, C.na)), ieq(total2, total)))
        p.res.add('each of encode, pack and write is called', 'ensures', 'proved' if set(calls) == {'encode', 'pack', 'write'} else 'failed', note=repr(calls))
        p.cover()
        return p.finish()
    return ('block-size-' + k, '%s::encodeAndWrite, CalculateBlockSize' % cls, f)


def units(pid):
    return [('row-to-block', 'DyscoStMan::getBlockIndex, getRowWithinBlock, getRowIndex', rows), ('block-to-row', 'DyscoStMan::getRowIndex, getBlockIndex, getRowWithinBlock', rows_inv),
            ('write', 'DyscoStMan::writeCompressedData', write), ('read', 'DyscoStMan::readCompressedData', read),
            ('column-offsets', 'DyscoStMan::initializeRowsPerBlock', offsets), size('cf'), size('f')]
