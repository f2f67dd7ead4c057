"""C17/C18: the write cache, the encoding threads and the rows of a column."""
import re, z3
from lib import *
import strs, streams, headers, layout
from headers import Manager, init, TYPES, MAN, EXTRA, VT
from quant import const_ret
from layout import DEC
from ir import I8, I32, I64

FLAGS = ['-fno-access-control']
KEEP = strs.KEEP + streams.KEEP + [r'^(.* )?std::map<.*>::(find|begin|end|empty|size|insert|erase|count|emplace|try_emplace|operator\[\])(\[abi:cxx11\])?(<.*>)?\(', r'^(void )?dyscostman::threadgroup::(join_all|empty|create_thread)', r'::encodeAndWrite\(',
    r'^TimeBlockBuffer<.*>::(TimeBlockBuffer|~TimeBlockBuffer|SetData|GetData|NRows|Empty|ResetData|resize|MaxAntennaIndex)\(', r'^dyscostman::BytePacker::(un)?pack\(', r'::readCompressedData\(', r'::nBlocksInFile\(',
    r'^casacore::Array<.*>::(getStorage|putStorage|freeStorage|operator=)\(', r'^casacore::ScalarColumn<\w+>::(operator\(\)|get|ScalarColumn|~ScalarColumn)\(', r'::(isWriteItemAvailable|loadBlock|storeBlock|stopThreads|initializeRowsPerBlock|shutdown)\(', r'^aocommon::UVector<.*>::(resize|~?UVector)\(', r'::CalculateBlockSize\(']
CF = ['_bitsPerSymbol', '_shape', '_blockSize', '_antennaCount', '_timeBlockBuffer', '_cache', '_mutex', '_cacheChangedCondition', '_threadGroup', '_stopThreads', '_currentBlock', '_isCurrentBlockChanged',
      '_ant1Col', '_ant2Col', '_fieldCol', '_dataDescIdCol', '_timeCol', '_packedBlockReadBuffer', '_unpackedSymbolReadBuffer', '_lastWrittenTime', '_lastWrittenField', '_lastWrittenDataDescId']


def driver():
    s = layout.driver()
    for k, t, c in TYPES:
        b = 'ThreadedDyscoColumn<%s>' % t
        s += 'extern "C" void vf_stop_%s(%s* c) { c->%s::stopThreads(); }\n' % (k, c, b)
        s += 'extern "C" void vf_shut_%s(%s* c) { c->%s::shutdown(); }\n' % (k, c, b)
        s += 'extern "C" void vf_store_%s(%s* c) { c->%s::storeBlock(); }\n' % (k, c, b)
        s += 'extern "C" void vf_load_%s(%s* c, size_t b) { c->%s::loadBlock(b); }\n' % (k, c, b)
        s += 'extern "C" void vf_get_%s(%s* c, casacore::uInt r, casacore::Array<%s>* a) { c->%s::getValues(r, a); }\n' % (k, c, t, b)
        s += 'extern "C" void vf_put_%s(%s* c, casacore::uInt r, const casacore::Array<%s>* a) { c->%s::putValues(r, a); }\n' % (k, c, t, b)
        s += 'extern "C" void vf_thread_%s(%s* c) { %s::EncodingThreadFunctor f; f.parent = c; f(); }\n' % (k, c, b)
        for f in CF:
            if f not in layout.CF: s += 'extern "C" size_t vf_off_Y%s_%s() { return __builtin_offsetof(%s, %s); }\n' % (k, f, b, f)
        s += 'extern "C" size_t vf_off_Y%s_enc() { return __builtin_offsetof(%s::CacheItem, encoder); }\n' % (k, b)
        s += 'extern "C" size_t vf_off_Y%s_flag() { return __builtin_offsetof(%s::CacheItem, isBeingWritten); }\n' % (k, b)
        s += 'extern "C" bool vf_next_%s(%s* c, %s::cache_t::iterator* i) { return c->%s::isWriteItemAvailable(*i); }\n' % (k, c, b, b)
        s += 'extern "C" void vf_start_%s(%s* c) { c->%s::InitializeAfterNRowsPerBlockIsKnown(); }\n' % (k, c, b)
    s += 'extern "C" uint64_t vf_count(const DyscoStMan* d) { return d->nBlocksInFile(); }\n'
    s += 'extern "C" size_t vf_off_M_mutex() { return __builtin_offsetof(DyscoStMan, _mutex); }\n'
    return s


# what is known about one arbitrary block g and one arbitrary row of it (r): the proofs hold for every choice of them
IN, CVAL, FVAL, SIZE, ME, LAST, LOCK, DIRTY, THR, RAW, SYM, DEC, OUT, TMP, IOLOCK, LASTB, SLOT = range(0, 136, 8)
BOOLS = {IN, THR}
NR, VAL = 1 << 20, (1 << 20) + 8         # of a TimeBlockBuffer object: number of rows, content of row r
I1 = lambda b: iite(b, icst(1), icst(0))
cst = icst


class World:
    """the column, its cache and its threads; all member functions of the code run against the contracts below"""

    def __init__(self, unit, mod, k, fn, target, worker=False):
        self.k, self.worker, self.mod = k, worker, mod
        self.p = p = layout.start(unit, mod, fn, target)
        m = self.m = p.m
        self.n = 0
        self.maxant = None
        self.rowno = None
        self.keys = []
        self.wait_ok = lambda st: F
        self.M = Manager(p, mod, stream=False)
        off = {f: const_ret(mod, '@vf_off_Y%s_%s' % (k, f)) for f in CF}
        self.flag, self.enc = (const_ret(mod, '@vf_off_Y%s_%s' % (k, x)) for x in ('flag', 'enc'))
        self.dmutex = const_ret(mod, '@vf_off_M_mutex')

        def more(o):
            o.update(off)
            f = {off['_timeBlockBuffer']: Ptr('BUF', (), cst(0)), off['_packedBlockReadBuffer']: Ptr('PACKED', (), cst(0)), off['_unpackedSymbolReadBuffer']: Ptr('SYMS', (), cst(0))}
            for c in ('ant1', 'ant2', 'field', 'dataDescId', 'time'): f[off['_%sCol' % c]] = Ptr('COL_' + c, (), cst(0))
            return f
        for c in ('ant1', 'ant2', 'field', 'dataDescId', 'time'): p.region('COL_' + c, None)
        self.C = C = layout.Column(p, mod, k, more)
        p.region('CACHE', None, check=False)
        m.global_ptr(VT[k])
        p.region('NODE', 64, None, fields={32: lambda x: x, 40: lambda x: Ptr('ITEM', (x,), cst(0))}, check=False)
        p.region('ITEM', None, arity=1, fields={self.enc: lambda x, _: Ptr('IBUF', (x,), cst(0))}, check=False)
        p.region('IBUF', None, arity=1, check=False)
        p.region('BUF', None)
        p.region('VT_TD', None, fields={o: Ptr('fn!td', (), cst(0)) for o in (0, 8)})
        p.region('TD', None, fields={0: Ptr('VT_TD', (), cst(0))})
        self.g, self.r = p.nat('g'), p.nat('r')
        self.R = self.M.get('_rowsPerBlock', init())
        m.nonneg_names |= {self.R.decl().name()}
        p.requires(mk_and(self.R >= 0, self.R < 2**20, self.g < 2**40, self.r < 2**20))
        self.meta, self.nsym = C.counts(self.R)
        self.total = iadd(imul(cst(4), self.meta), idiv(iadd(imul(self.nsym, C.bits), cst(7)), cst(8)))
        p.region('PACKED', 1, self.total)
        p.region('SYMS', 4, self.nsym)
        s0 = init()
        for w, v in ((LOCK, 0), (DIRTY, 0), (ME, -1), (LAST, -1), (RAW, -1), (SYM, -1), (DEC, -1), (IOLOCK, 0), (LASTB, -1), (SLOT, -1)): p.requires(ieq(self.rd(s0, w), cst(v)))
        p.requires(mk_and(self.rd(s0, SIZE) >= 0, self.rd(s0, SIZE) < 2**30, self.inv(s0)))
        self.cur = self.kf('_currentBlock', s0)
        self.keys = [] if worker else [self.cur]
        self.changed = mk_not(ieq(self.kf('_isCurrentBlockChanged', s0), cst(0)))
        self.stop0 = self.kf('_stopThreads', s0)
        m.nonneg_names |= {v.decl().name() for v in (self.cur, self.stop0)}
        p.requires(mk_and(self.cur >= 0, self.cur < 2**64, mk_or(ieq(self.stop0, cst(0)), ieq(self.stop0, cst(1)))))
        f = self.kf('_isCurrentBlockChanged', s0)
        p.requires(mk_or(ieq(f, cst(0)), ieq(f, cst(1))))
        p.requires(mk_and(self.bget(s0, Ptr('BUF', (), cst(0)), NR) >= 0, self.bget(s0, Ptr('BUF', (), cst(0)), NR) < 2**20))
        # flags are booleans
        self.flags_bool(s0)
        m.guards['K'] = self.guard_k
        m.guards['NODE'] = self.guard_node
        m.guards['ITEM'] = self.guard_item
        x, y = z3.Ints('ax_ ay_')
        self.ANT = [z3.Function('ANT%d' % i, z3.IntSort(), z3.IntSort()) for i in (1, 2)]
        for a in self.ANT:
            m.nonneg_names |= {a.name()}
            m.add_fact([a], (x,), mk_and(a(x) >= 0, a(x) < 2**20))
        self.install()
        m.templates.append(self.templates)

    # ---- ghost state
    def rd(self, st, w):
        return self.m.get_cell(st, ('CACHE', w), 'bool' if w in BOOLS else 'int').read((cst(0),))

    def wr(self, st, w, v, c=T):
        self.m.write_cell(st, ('CACHE', w), 'bool' if w in BOOLS else 'int', vc.Desc((), c, (cst(0),), v))

    def kf(self, f, st): return self.m.get_cell(st, ('K', self.C.o[f]), 'int').read((cst(0),))

    def bget(self, st, ptr, w):
        v = None
        for c, q in reversed(alts(ptr)):
            x = self.m.get_cell(st, (q.reg, w), 'int').read(q.fam + (cst(0),)) if q.reg in self.m.regions and q.reg != 'NULL' else cst(0)
            v = x if v is None else iite(c, x, v)
        return v

    def bset(self, st, ptr, w, v):
        for c, q in alts(ptr):
            if q.reg in self.m.regions and q.reg != 'NULL': self.m.write_cell(st, (q.reg, w), 'int', vc.Desc((), c, q.fam + (cst(0),), v))

    def fresh(self, st, what, path, kind='int'):
        self.n += 1
        return self.m.sym('%s!%s' % (what, path), kind, st.ctx)

    def S(self, st): return iite(self.rd(st, IN), self.rd(st, CVAL), self.rd(st, FVAL))

    def buffer(self, st): return self.m.get_cell(st, ('K', self.C.o['_timeBlockBuffer']), 'ptr').read((cst(0),))

    def content(self, st, ptr=None):
        ptr = ptr if ptr is not None else self.buffer(st)
        return iite(ilt(self.r, self.bget(st, ptr, NR)), self.bget(st, ptr, VAL), cst(0))

    def A(self, st):
        """the value of row r of block g for the user"""
        return iite(ieq(self.kf('_currentBlock', st), self.g), self.content(st), self.S(st))

    def flagof(self, st, x): return self.m.get_cell(st, ('ITEM', self.flag), 'int').read((x, cst(0)))

    def flags_bool(self, st):
        c = self.m.get_cell(st, ('ITEM', self.flag), 'int')
        if not hasattr(c.base, 'decls'): return
        d = c.base.decls[0]
        fs = [z3.Int('fb%d_' % i) for i in range(d.arity())]
        self.m.nonneg_names |= {d.name()}
        self.m.add_fact([d], tuple(fs), mk_or(ieq(norm(d(*fs)), cst(0)), ieq(norm(d(*fs)), cst(1))))

    def inv(self, st):
        n, stop = self.rd(st, SIZE), self.kf('_stopThreads', st)
        return mk_and(ile(cst(0), n), mk_imp(self.rd(st, IN), ile(cst(1), n)), mk_imp(mk_and(self.rd(st, THR), mk_not(ieq(stop, cst(0))), self.rd(st, IN)), mk_not(ieq(self.flagof(st, self.g), cst(0)))))

    # ---- the lock
    def havoc(self, st, path):
        """other threads have run: what they guarantee is all that is known"""
        m = self.m
        o = {w: self.rd(st, w) for w in (IN, CVAL, FVAL, SIZE, ME, THR)}
        stop, flag = self.kf('_stopThreads', st), self.flagof(st, o[ME])
        thr = o[THR]
        n = {w: self.fresh(st, 'w%d' % w, path, 'bool' if w in BOOLS else 'int') for w in (IN, CVAL, FVAL, SIZE)}
        # nobody else runs when there are no threads
        keep = mk_not(thr) if not self.worker else F
        for w in n: self.wr(st, w, vite(keep, o[w], n[w]))
        m.nonneg_names |= {n[SIZE].decl().name()}
        dom = [z3.IntSort()] * (len(st.ctx) + 2)
        d = z3.Function('flg!' + path, *dom, z3.IntSort())
        st.mem[('ITEM', self.flag)] = vc.Cell('int', vc.UFBase('int', [d], st.ctx))
        self.flags_bool(st)
        new = {w: self.rd(st, w) for w in n}
        fs = [mk_and(ile(cst(0), n[SIZE]), n[SIZE] < 2**30)]
        if self.worker:
            s1 = self.fresh(st, 'stop', path)
            m.nonneg_names |= {s1.decl().name()}
            m.write_cell(st, ('K', self.C.o['_stopThreads']), 'int', vc.Desc((), T, (cst(0),), s1))
            own = mk_not(ieq(o[ME], cst(-1)))
            fs += [mk_or(ieq(s1, cst(0)), ieq(s1, cst(1)))]
            # the item that this thread has taken stays what it is
            fs += [mk_imp(mk_and(own, ieq(o[ME], self.g)), mk_and(new[IN], ieq(new[CVAL], o[CVAL]), ieq(new[FVAL], o[FVAL])))]
            fs += [mk_imp(own, mk_and(ile(cst(1), new[SIZE]), ieq(self.flagof(st, o[ME]), flag)))]
        else:
            # the threads only take items out, after they have been written
            fs += [mk_imp(new[IN], o[IN]), ieq(self.S(st), iite(o[IN], o[CVAL], o[FVAL])), mk_imp(new[IN], ieq(new[CVAL], o[CVAL])), ile(new[SIZE], o[SIZE])]
        fs += [self.inv(st)]
        return st.assume(mk_and(*fs))

    def is_lock(self, st, p):
        al = self.m.resolve_alts(st, p)
        if len(al) != 1 or al[0][1].reg not in ('K', 'D'): raise Unsupported('mutex %r' % (p,))
        q = al[0][1]
        o = const_of(q.off)
        if q.reg == 'K' and o == self.C.o['_mutex']: return LOCK
        if q.reg == 'D' and o == self.dmutex: return IOLOCK
        raise Unsupported('mutex %r' % (p,))

    def need(self, name, st, goal, kind='requires'): self.m.obligation(name, kind, st, goal)

    def locked(self, st): return mk_or(ieq(self.rd(st, LOCK), cst(1)), F if self.worker else mk_not(self.rd(st, THR)))

    def lock(self, m, dem, a, I, st, path):
        w = self.is_lock(st, a[0])
        self.need('a mutex is not locked twice', st, ieq(self.rd(st, w), cst(0)), 'lock')
        if w == LOCK: st = self.havoc(st, path)
        self.wr(st, w, cst(1))
        return st, None

    def unlock(self, m, dem, a, I, st, path):
        w = self.is_lock(st, a[0])
        self.need('a mutex is unlocked by its owner', st, ieq(self.rd(st, w), cst(1)), 'lock')
        if w == LOCK: self.no_dead_item(st)
        self.wr(st, w, cst(0))
        return st, None

    def no_dead_item(self, st):
        me = self.rd(st, ME)
        self.need('no item without data is left in the cache', st, ieq(self.rd(st, SLOT), cst(-1)), 'lock')
        self.need('no deleted item is left in the cache for other threads', st, mk_or(ieq(me, cst(-1)), ieq(self.rd(st, LAST), me)), 'lock')

    def wait(self, m, dem, a, I, st, path):
        self.need('waiting needs the mutex', st, ieq(self.rd(st, LOCK), cst(1)), 'lock')
        self.no_dead_item(st)
        self.need('changes are announced before waiting', st, ieq(self.rd(st, DIRTY), cst(0)), 'progress')
        self.need('waiting only when another thread has something to do', st, self.wait_ok(st), 'progress')
        return self.havoc(st, path), None

    def notify(self, m, dem, a, I, st, path):
        self.wr(st, DIRTY, cst(0))
        return st, None

    def run(self, m, dem, a, I, st, path): return m.run_function(dem, a, st, path)

    # ---- monitors of memory
    def guard_k(self, m, st, q, size, c, write, v):
        o = const_of(q.off)
        if o == self.C.o['_stopThreads']:
            self.need('the stop flag is used under the mutex', st, mk_imp(c, self.locked(st)), 'lock')
            if write:
                self.need('the threads are stopped only when every block left is being written', st, mk_imp(mk_and(c, mk_not(ieq(v, cst(0))), self.rd(st, THR), self.rd(st, IN)), mk_not(ieq(self.flagof(st, self.g), cst(0)))), 'progress')
                self.need('only the user thread stops the threads', st, F if self.worker else T, 'frame')
                self.wr(st, DIRTY, cst(1), mk_and(c, mk_not(ieq(v, cst(0)))))
        if o in (self.C.o['_currentBlock'], self.C.o['_isCurrentBlockChanged'], self.C.o['_timeBlockBuffer']) and self.worker: self.need('an encoding thread does not touch the current block', st, mk_not(c), 'frame')
        if self.C.o['_cache'] <= o < self.C.o['_cache'] + 48: raise Unsupported('direct access to the map')

    def guard_node(self, m, st, q, size, c, write, v):
        x = m.cell_key(q, size)[1][-1]
        if write: raise Unsupported('write to a map node')
        self.need('map nodes are used under the mutex', st, mk_imp(c, self.locked(st)), 'lock')
        self.need('the iterator refers to an item', st, mk_imp(c, mk_and(ile(cst(0), x), mk_imp(ieq(x, self.g), self.rd(st, IN)))), 'bounds')

    def guard_item(self, m, st, q, size, c, write, v):
        x, o = q.fam[0], const_of(q.off)
        mine = ieq(self.rd(st, LAST), x)
        live = mk_imp(ieq(x, self.g), self.rd(st, IN))
        if o == self.flag:
            self.need('the state of an item is used under the mutex', st, mk_imp(c, mk_or(self.locked(st), F)), 'lock')
            self.need('the item is in the cache or owned', st, mk_imp(c, mk_or(mine, live)), 'bounds')
            if write:
                self.need('an item is taken by one thread only', st, mk_imp(c, mk_and(ieq(self.flagof(st, x), cst(0)), mk_not(ieq(v, cst(0))), ieq(self.rd(st, ME), cst(-1)))), 'lock')
                self.wr(st, ME, x, c)
                self.wr(st, LAST, x, c)
                self.wr(st, LASTB, x, c)
        else:
            self.need('the data of an item are used by the thread that has taken it', st, mk_imp(c, mine), 'lock')
            has = ieq(self.rd(st, LASTB), x)
            if write:
                # the thread gives the data up: after deleting them
                self.need('only null replaces the data of an item', st, mk_imp(c, mk_not(has)) if isinstance(v, Ptr) and v.reg == 'NULL' else F, 'lock')
                return True
            return Choice([(has, Ptr('IBUF', (x,), cst(0))), (mk_not(has), NULL)])

    def delete(self, m, dem, a, I, st, path):
        al = m.resolve_alts(st, a[0])
        fam = [q for _, q in al if q.reg in ('ITEM', 'IBUF', 'NODE')]
        if not fam: return NotImplemented
        for c, q in al:
            if q.reg in ('ITEM', 'IBUF'):
                self.need('an item is deleted once, by the thread that has taken it', st, mk_imp(c, mk_and(ieq(self.rd(st, LAST if q.reg == 'ITEM' else LASTB), q.fam[0]), ieq(q.off, cst(0)), mk_imp(ieq(q.fam[0], self.g), ieq(self.rd(st, FVAL), self.rd(st, CVAL))))), 'bounds')
                if q.reg == 'ITEM': self.need('an item that is still in the cache is deleted under the mutex', st, mk_imp(mk_and(c, ieq(self.rd(st, ME), q.fam[0])), self.locked(st)), 'lock')
                self.wr(st, LAST if q.reg == 'ITEM' else LASTB, cst(-1), c)
            elif q.reg != 'NULL': raise Unsupported('delete of %r' % (q,))
        return st, None

    # ---- the cache
    def is_cache(self, m, st, p):
        al = m.resolve_alts(st, p)
        if len(al) != 1 or al[0][1].reg != 'K' or const_of(al[0][1].off) != self.C.o['_cache']: raise Unsupported('map %r' % (p,))
        self.need('the cache is used under the mutex', st, self.locked(st), 'lock')

    def it(self, x): return Ptr('NODE', (), imul(cst(64), x))

    def key(self, m, st, p): return m.load(st, p, I64, 'key')

    def find(self, m, dem, a, I, st, path):
        self.is_cache(m, st, a[0])
        k = self.key(m, st, a[1])
        x = self.fresh(st, 'find', path)
        here = ieq(x, k)
        st = st.assume(mk_and(mk_or(here, ieq(x, cst(-1))), ile(cst(-1), x), mk_imp(ieq(k, self.g), here == self.rd(st, IN)), mk_imp(here, ile(cst(1), self.rd(st, SIZE)))))
        return st, self.it(x)

    def count(self, m, dem, a, I, st, path):
        st, q = self.find(m, dem, a, I, st, path)
        return st, I1(ile(cst(0), pnode(q)))

    def end(self, m, dem, a, I, st, path):
        self.is_cache(m, st, a[0])
        return st, self.it(cst(-1))

    def first(self, st, path, lo):
        """the first key that is larger than lo"""
        g, inn = self.g, self.rd(st, IN)
        x = self.fresh(st, 'next', path)
        st = st.assume(mk_and(mk_or(ieq(x, cst(-1)), ilt(lo, x)), ile(cst(-1), x), x < 2**64, mk_imp(mk_and(ilt(lo, g), mk_or(ieq(x, cst(-1)), ilt(g, x))), mk_not(inn)), mk_imp(ieq(x, g), inn), mk_imp(ile(cst(0), x), ile(cst(1), self.rd(st, SIZE)))))
        return st, self.it(x)

    def begin(self, m, dem, a, I, st, path):
        self.is_cache(m, st, a[0])
        st, q = self.first(st, path, cst(-1))
        st = st.assume(ieq(pnode(q), cst(-1)) == ieq(self.rd(st, SIZE), cst(0)))
        return st, q

    def increment(self, m, dem, a, I, st, path):
        al = m.resolve_alts(st, a[0])
        if len(al) != 1 or al[0][1].reg != 'NODE': raise Unsupported('iterator %r' % (a[0],))
        x = pnode(al[0][1])
        self.need('iterating needs the mutex', st, self.locked(st), 'lock')
        self.need('only an iterator that refers to an item is advanced', st, mk_and(ile(cst(0), x), mk_imp(ieq(x, self.g), self.rd(st, IN))), 'bounds')
        return self.first(st, path, x)

    def size(self, m, dem, a, I, st, path):
        self.is_cache(m, st, a[0])
        return st, self.rd(st, SIZE)

    def empty(self, m, dem, a, I, st, path):
        self.is_cache(m, st, a[0])
        return st, ieq(self.rd(st, SIZE), cst(0))

    def insert(self, m, dem, a, I, st, path):
        self.is_cache(m, st, a[0])
        return self.put(m, st, self.key(m, st, a[1]), m.load(st, Ptr(a[1].reg, a[1].fam, iadd(a[1].off, cst(8))), PTR, 'item'))

    def emplace(self, m, dem, a, I, st, path):
        self.is_cache(m, st, a[0])
        return self.put(m, st, self.key(m, st, a[1]), m.load(st, a[2], PTR, 'item'))

    def subscript(self, m, dem, a, I, st, path):
        """the item is handed over when it is stored in the place that is returned"""
        self.is_cache(m, st, a[0])
        self.wr(st, SLOT, self.key(m, st, a[1]))
        if 'SLOT' not in m.regions: m.region(vc.Region('SLOT', None, check=False))

        def guard(m, st, q, size, c, write, v):
            if not write or not is_t(c): raise Unsupported('use of a place in the map')
            k = self.rd(st, SLOT)
            self.need('an item is stored once in its place', st, ile(cst(0), k))
            self.put(m, st, k, v)
            self.wr(st, SLOT, cst(-1))
            return True
        m.guards['SLOT'] = guard
        return st, Ptr('SLOT', (), cst(0))

    def put(self, m, st, k, it):
        g = self.g
        al = m.resolve_alts(st, it)
        if len(al) != 1 or not al[0][1].reg.startswith('new!'): raise Unsupported('inserted item %r' % (it,))
        q = al[0][1]
        e = m.load(st, Ptr(q.reg, q.fam, cst(self.enc)), PTR, 'encoder')
        fl = m.load(st, Ptr(q.reg, q.fam, cst(self.flag)), I8, 'flag')
        self.need('threads run when a block is handed to them', st, mk_and(self.rd(st, THR), ieq(self.kf('_stopThreads', st), cst(0))), 'progress')
        self.need('a block is not put twice into the cache', st, mk_imp(ieq(k, g), mk_not(self.rd(st, IN))), 'requires')
        self.need('the data of the block are handed over', st, mk_and(*[mk_imp(c, F) for c, b in alts(e) if b.reg == 'NULL'] + [T]), 'requires')
        self.need('the item starts as not being written', st, ieq(fl, cst(0)), 'requires')
        here = ieq(k, g)
        v = self.content(st, e)
        self.wr(st, CVAL, iite(here, v, self.rd(st, CVAL)))
        self.wr(st, IN, mk_or(self.rd(st, IN), here))
        self.wr(st, SIZE, iadd(self.rd(st, SIZE), cst(1)))
        self.wr(st, DIRTY, cst(1))
        m.write_cell(st, ('ITEM', self.flag), 'int', vc.Desc((), T, (k, cst(0)), cst(0)))
        # item and data belong to the threads from now on
        for c, b in [(T, q)] + alts(e):
            if b.reg == 'NULL': continue
            self.release(st, b, c)
        return st, Agg([self.it(k), cst(1)])

    def release(self, st, b, c=T):
        key = 'freed!' + b.reg
        if key not in self.m.regions: self.m.region(vc.Region(key, None, arity=len(b.fam), init='zero', check=False))
        self.m.write_cell(st, (key, 0), 'bool', vc.Desc((), c, b.fam + (cst(0),), T))

    def erase(self, m, dem, a, I, st, path):
        self.is_cache(m, st, a[0])
        x = pnode(a[1]) if '_Rb_tree' in externs.demangle(dem) else self.key(m, st, a[1])
        g = self.g
        self.need('only the thread that has taken an item takes it out of the cache', st, mk_and(ile(cst(0), x), ieq(self.rd(st, ME), x)), 'lock')
        self.need('a block is taken out of the cache after it has been written', st, mk_imp(ieq(x, g), mk_and(self.rd(st, IN), ieq(self.rd(st, FVAL), self.rd(st, CVAL)))), 'requires')
        self.wr(st, IN, mk_and(self.rd(st, IN), mk_not(ieq(x, g))))
        self.wr(st, SIZE, isub(self.rd(st, SIZE), cst(1)))
        self.wr(st, ME, cst(-1))
        self.wr(st, DIRTY, cst(1))
        if '_Rb_tree' in externs.demangle(dem): return self.first(st, path, x)
        return st, cst(1)

    # ---- threads
    def next_spec(self, st, x, r):
        """result r and iterator x of isWriteItemAvailable"""
        g, inn, fl = self.g, self.rd(st, IN), self.flagof(st, self.g)
        return mk_and(ile(cst(-1), x), r == mk_not(ieq(x, cst(-1))), mk_imp(ieq(x, g), mk_and(inn, ieq(fl, cst(0)))), mk_imp(mk_and(mk_not(r), inn), mk_not(ieq(fl, cst(0)))), mk_imp(r, ile(cst(1), self.rd(st, SIZE))))

    def next_item(self, m, dem, a, I, st, path):
        self.need('looking for an item needs the mutex', st, self.locked(st), 'lock')
        x = self.fresh(st, 'item', path)
        r = mk_not(ieq(x, cst(-1)))
        st = st.assume(mk_and(self.next_spec(st, x, r), x < 2**64, mk_imp(ile(cst(0), x), ieq(self.flagof(st, x), cst(0)))))
        m.store(st, a[1], self.it(x), PTR)
        return st, r

    def write_block(self, m, dem, a, I, st, path):
        self_, k, item, packed, sym, td = a
        al = m.resolve_alts(st, item)
        ok = mk_and(*[mk_imp(c, ieq(q.fam[0], k) if q.reg == 'ITEM' else F) for c, q in al])
        self.need('a thread encodes the item that it has taken', st, mk_and(ieq(self.rd(st, ME), k), ieq(self.rd(st, LAST), k), ok), 'lock')
        self.need('changes are announced before encoding', st, ieq(self.rd(st, DIRTY), cst(0)), 'progress')
        for q, e, n, what in ((packed, 1, self.total, 'packed block'), (sym, 4, self.nsym, 'symbols')):
            reg = m.regions.get(q.reg)
            if reg is None or reg.elem is None and n is not None: raise Unsupported('buffer %r' % (q,))
            L = imul(m.rlen(st, reg, q.fam), cst(reg.elem))
            self.need('room for the ' + what, st, mk_and(ieq(q.off, cst(0)), ile(imul(n, cst(e)), L)), 'bounds')
        self.need('the data of the thread are given', st, T if isinstance(td, Ptr) and td.reg == 'TD' else F)
        self.wr(st, FVAL, iite(ieq(k, self.g), self.rd(st, CVAL), self.rd(st, FVAL)))
        return st, None

    def thread_data(self, m, dem, a, I, st, path):
        m.store(st, a[0], Ptr('TD', (), cst(0)), PTR)
        return st, None

    def tg_empty(self, m, dem, a, I, st, path): return st, mk_not(self.rd(st, THR))

    def tg_join(self, m, dem, a, I, st, path):
        self.need('joining does not hold the mutex', st, ieq(self.rd(st, LOCK), cst(0)), 'lock')
        self.need('the threads are told to stop before joining', st, mk_imp(self.rd(st, THR), mk_and(mk_not(ieq(self.kf('_stopThreads', st), cst(0))), ieq(self.rd(st, DIRTY), cst(0)))), 'progress')
        # a thread that ends has finished the item that it has taken
        S = self.S(st)
        self.need('the threads end when all blocks are written', st, mk_imp(mk_and(self.rd(st, THR), self.rd(st, IN)), mk_not(ieq(self.flagof(st, self.g), cst(0)))), 'progress')
        thr = self.rd(st, THR)
        self.wr(st, FVAL, S, thr)
        self.wr(st, IN, F, thr)
        self.wr(st, SIZE, cst(0), thr)
        self.wr(st, THR, F)
        return st, None

    def install(self):
        ext = [(r'^std::(unique_lock|lock_guard|scoped_lock)<std::mutex>::', self.run), (r'^std::mutex::lock\(', self.lock), (r'^std::mutex::unlock\(', self.unlock),
               (r'^std::condition_variable::wait\(', self.wait), (r'^std::condition_variable::notify_all\(', self.notify), (r'^std::condition_variable::notify_one\(', nothing),
               (r'^std::map<.*>::find\(', self.find), (r'^std::map<.*>::count\(', self.count), (r'^std::map<.*>::end\(', self.end), (r'^std::map<.*>::begin\(', self.begin), (r'^std::map<.*>::size\(', self.size), (r'^std::map<.*>::empty\(', self.empty),
               (r'^(.* )?std::map<.*>::insert(<.*>)?\(', self.insert), (r'^(.* )?std::map<.*>::(emplace|try_emplace)<.*>\(', self.emplace), (r'^std::map<.*>::operator\[\]\(', self.subscript), (r'^std::map<.*>::erase', self.erase), (r'^std::_Rb_tree_increment\(', self.increment),
               (r'^sysconf$', self.sysconf), (r'^operator delete(\[\])?\(', self.delete), (r'::encodeAndWrite\(', self.write_block), (r'::initializeEncodeThread\(', self.thread_data),
               (r'^TimeBlockBuffer<.*>::TimeBlockBuffer\(', self.b_new), (r'^TimeBlockBuffer<.*>::~TimeBlockBuffer\(', self.b_del), (r'^TimeBlockBuffer<.*>::NRows\(', self.b_rows), (r'^TimeBlockBuffer<.*>::Empty\(', self.b_empty),
               (r'^TimeBlockBuffer<.*>::ResetData\(', self.b_reset), (r'^TimeBlockBuffer<.*>::resize\(', self.b_resize), (r'^TimeBlockBuffer<.*>::SetData\(', self.b_set), (r'^TimeBlockBuffer<.*>::GetData\(', self.b_get), (r'^TimeBlockBuffer<.*>::MaxAntennaIndex\(', self.b_maxant),
               (r'::nBlocksInFile\(', self.n_blocks), (r'::readCompressedData\(', self.read_block), (r'BytePacker::unpack\(', self.unpack), (r'::initializeDecode\(', self.init_decode), (r'::decode\(', self.decode), (r'^casacore::ScalarColumn<\w+>::operator\(\)', self.scalar),
               (r'^casacore::Array<.*>::getStorage\(', self.get_storage), (r'^casacore::Array<.*>::putStorage\(', self.put_storage), (r'^casacore::Array<.*>::freeStorage\(', self.free_storage), (r'^casacore::Array<.*>::operator=\(', self.assign),
               (r'::isWriteItemAvailable\(', self.next_item),
               (r'threadgroup::empty\(', self.tg_empty), (r'threadgroup::join_all\(', self.tg_join), (r'ThreadDataBase::~ThreadDataBase|ThreadData::~ThreadData|^(fn|n)!td', nothing)]
        self.m.contracts[:0] = [(re.compile(r_), f_) for r_, f_ in ext]

    # ---- the rows of a block
    def owned_buffer(self, st, ptr, what):
        """the caller may use the buffer"""
        al = self.m.resolve_alts(st, ptr)
        self.need('%s: the buffer exists and belongs to this thread' % what, st, mk_and(*[mk_imp(c, F if q.reg not in self.m.regions or q.reg == 'NULL' else ieq(self.rd(st, LASTB), q.fam[0]) if q.reg == 'IBUF' else mk_and(ieq(q.off, cst(0)), self.m.not_freed(st, q))) for c, q in al]), 'bounds')

    def b_new(self, m, dem, a, I, st, path):
        np_, nc = self.C.shape
        self.need('a buffer has the shape of the column', st, mk_and(ieq(a[1], np_), ieq(a[2], nc)))
        self.bset(st, a[0], NR, cst(0))
        self.bset(st, a[0], VAL, cst(0))
        return st, None

    def b_del(self, m, dem, a, I, st, path):
        self.owned_buffer(st, a[0], 'destruction')
        return st, None

    def b_rows(self, m, dem, a, I, st, path):
        self.owned_buffer(st, a[0], 'NRows')
        return st, self.bget(st, a[0], NR)

    def b_empty(self, m, dem, a, I, st, path):
        self.owned_buffer(st, a[0], 'Empty')
        return st, ieq(self.bget(st, a[0], NR), cst(0))

    def b_reset(self, m, dem, a, I, st, path):
        self.owned_buffer(st, a[0], 'ResetData')
        self.bset(st, a[0], NR, cst(0))
        return st, None

    def b_resize(self, m, dem, a, I, st, path):
        self.owned_buffer(st, a[0], 'resize')
        self.grow(st, a[0], a[1], path)
        self.bset(st, a[0], NR, a[1])
        return st, None

    def grow(self, st, b, n, path):
        """rows that come to exist without a value hold anything"""
        junk = self.fresh(st, 'junk', path)
        self.bset(st, b, VAL, iite(ile(self.bget(st, b, NR), self.r), junk, self.bget(st, b, VAL)))

    def put_row(self, st, b, row, v, path):
        n = self.bget(st, b, NR)
        self.grow(st, b, row, path)
        self.bset(st, b, VAL, iite(ieq(row, self.r), v, self.bget(st, b, VAL)))
        self.bset(st, b, NR, iite(ilt(row, n), n, iadd(row, cst(1))))

    def b_set(self, m, dem, a, I, st, path):
        b, row, a1, a2, src = a
        self.owned_buffer(st, b, 'SetData')
        self.put_row(st, b, row, self.values(st, src, path, a1, a2), path)
        return st, None

    def values(self, st, src, path, a1, a2):
        """content of an array of one value for every polarization and channel"""
        m = self.m
        al = m.resolve_alts(st, src)
        if len(al) != 1: raise Unsupported('choice of data')
        q = al[0][1]
        n = imul(*self.C.shape)
        if q.reg == 'ST':
            self.need('the data of the array are stored from their begin', st, mk_and(ieq(q.off, cst(0)), m.not_freed(st, q)), 'bounds')
            if self.rowno is not None:
                for x, y, f in ((a1, 1, self.ANT[0]), (a2, 2, self.ANT[1])): self.need('antenna %d of the row goes with the data' % y, st, ieq(x, norm(f(self.rowno))))
            return self.rd(st, TMP)
        E = 8 if self.k == 'cf' else 4
        i = norm(z3.Int('vi!' + path))
        m.nonneg_names |= {'vi!' + path}
        end = iadd(q.off, imul(n, cst(E)))
        self.need('the array holds a value for every polarization and channel', st, m_range(m, Ptr(q.reg, q.fam, q.off), imul(n, cst(E)), st), 'bounds')
        s = st.copy().assume(mk_and(ile(cst(0), i), ilt(i, n)))
        c = st.mem.get((q.reg, const_of(q.off) or 0)) or m.initial.get((q.reg, const_of(q.off) or 0))
        step, ty = (8, I64) if c is not None and c.kind == 'int' else (4, ir.FLOAT)
        for o in range(0, E, step):
            v = m.load(s, Ptr(q.reg, q.fam, iadd(q.off, iadd(imul(cst(E), i), cst(o)))), ty, 'datum')
            r, _ = m.prove(s.pc, feq(v, ZERO) if isinstance(v, FV) else ieq(v, cst(0)), hints=[i])
            if r != 'proved': return self.fresh(st, 'data', path)
        return cst(0)

    def b_get(self, m, dem, a, I, st, path):
        b, row, dst = a
        self.owned_buffer(st, b, 'GetData')
        self.need('the row exists', st, mk_and(ile(cst(0), row), ilt(row, self.bget(st, b, NR))), 'bounds')
        self.need('the data go to the storage of the array', st, mk_and(T if isinstance(dst, Ptr) and dst.reg == 'ST' else F, ieq(dst.off, cst(0))), 'bounds')
        x = self.fresh(st, 'row', path)
        self.wr(st, TMP, iite(ieq(row, self.r), self.bget(st, b, VAL), x))
        return st, None

    def b_maxant(self, m, dem, a, I, st, path):
        self.owned_buffer(st, a[0], 'MaxAntennaIndex')
        v = self.fresh(st, 'maxant', path)
        m.nonneg_names |= {v.decl().name()}
        self.maxant = v
        return st.assume(mk_and(ile(cst(0), v), v < 2**20)), v

    # ---- reading a block
    def n_blocks(self, m, dem, a, I, st, path):
        n = self.fresh(st, 'nblocks', path)
        m.nonneg_names |= {n.decl().name()}
        # what was never written reads as zero
        return st.assume(mk_and(ile(cst(0), n), mk_imp(mk_and(mk_not(self.rd(st, IN)), ile(n, self.g)), ieq(self.rd(st, FVAL), cst(0))))), n

    def at(self, st, p, reg, off=cst(0)): return mk_and(T if isinstance(p, Ptr) and p.reg == reg else F, ieq(p.off, off))

    def read_block(self, m, dem, a, I, st, path):
        self.need('a block is read from the file when the file has its last values', st, mk_imp(ieq(a[1], self.g), mk_not(self.rd(st, IN))))
        self.need('the block goes to the read buffer', st, mk_and(self.at(st, a[2], 'PACKED'), ieq(a[3], self.total)), 'bounds')
        self.wr(st, RAW, a[1])
        return st, None

    def unpack(self, m, dem, a, I, st, path):
        self.need('unpack: the bit rate of the column', st, ieq(a[0], self.C.bits))
        self.need('unpack: the symbols that follow the metadata', st, mk_and(self.at(st, a[1], 'SYMS'), self.at(st, a[2], 'PACKED', imul(cst(4), self.meta)), ieq(a[3], self.nsym)), 'bounds')
        self.wr(st, SYM, self.rd(st, RAW))
        return st, None

    def init_decode(self, m, dem, a, I, st, path):
        self.need('initializeDecode: the metadata at the begin of the block', st, mk_and(self.at(st, a[2], 'PACKED'), ieq(a[3], self.R), ieq(a[4], self.C.na)), 'bounds')
        self.owned_buffer(st, a[1], 'initializeDecode')
        self.wr(st, DEC, self.rd(st, RAW))
        return st, None

    def decode(self, m, dem, a, I, st, path):
        _, b, sym, row, a1, a2 = a
        self.owned_buffer(st, b, 'decode')
        blk = self.rd(st, RAW)
        first = imul(blk, self.R)
        self.need('decode: metadata and symbols of the same block', st, mk_and(ieq(self.rd(st, SYM), blk), ieq(self.rd(st, DEC), blk), self.at(st, sym, 'SYMS')))
        self.need('decode: the row exists', st, mk_and(ile(cst(0), row), ilt(row, self.bget(st, b, NR)), ilt(row, self.R)), 'bounds')
        for i, (x, f) in enumerate(zip((a1, a2), self.ANT)): self.need('decode: antenna %d of the row' % (i + 1), st, ieq(m.uns(x, 64), norm(f(iadd(first, row)))), 'requires')
        x = self.fresh(st, 'decoded', path)
        v = iite(ieq(blk, self.g), self.rd(st, FVAL), x)
        self.bset(st, b, VAL, iite(ieq(row, self.r), v, self.bget(st, b, VAL)))
        return st, None

    def scalar(self, m, dem, a, I, st, path):
        al = m.resolve_alts(st, a[0])
        if len(al) != 1: raise Unsupported('choice of columns')
        c = al[0][1].reg
        if c == 'COL_ant1': return st, norm(self.ANT[0](a[1]))
        if c == 'COL_ant2': return st, norm(self.ANT[1](a[1]))
        if c in ('COL_field', 'COL_dataDescId', 'COL_time'): return st, self.key_of(c[4:], a[1])
        raise Unsupported('column %r' % (a[0],))

    def key_of(self, c, row):
        """the time, field or data description of a row"""
        if c == 'time': return FV(F, F, TIME(row))
        return norm({'field': FIELD, 'dataDescId': DDID}[c](row))

    # ---- the array of the user
    def get_storage(self, m, dem, a, I, st, path):
        self.need('the storage of the array of the user', st, T if a[0].reg == 'ARR' else F)
        self.wr(st, TMP, self.rd(st, OUT))
        return st, Ptr('ST', (), cst(0))

    def put_storage(self, m, dem, a, I, st, path):
        self.need('the storage is given back', st, mk_and(T if a[0].reg == 'ARR' else F, m.not_freed(st, Ptr('ST', (), cst(0)))))
        self.wr(st, OUT, self.rd(st, TMP))
        self.release(st, Ptr('ST', (), cst(0)))
        return st, None

    # ---- the functions of the column, for their callers
    def ready(self, st, what):
        stop = self.kf('_stopThreads', st)
        self.need('%s: the threads are running' % what, st, mk_and(self.rd(st, THR), ieq(stop, cst(0)), ile(cst(1), self.rows(st))))
        self.need('%s: the mutex is free and changes are announced' % what, st, mk_and(ieq(self.rd(st, LOCK), cst(0)), ieq(self.rd(st, DIRTY), cst(0))), 'lock')

    def rows(self, st): return self.M.get('_rowsPerBlock', st)

    def set_k(self, st, f, v):
        if f == '_stopThreads': self.m.write_cell(st, ('K', self.C.o[f]), 'int', vc.Desc((), T, (cst(0),), v))
        else: self.m.store(st, Ptr('K', (), cst(self.C.o[f])), v, I8 if f in ('_isCurrentBlockChanged', '_stopThreads') else I64)

    def renew(self, st, path, S, lo=0, hi=None):
        """the cache after other threads have run: S is what is stored"""
        n = {w: self.fresh(st, 'c%d' % w, path, 'bool' if w in BOOLS else 'int') for w in (IN, CVAL, FVAL, SIZE)}
        for w in n: self.wr(st, w, n[w])
        self.m.nonneg_names |= {n[SIZE].decl().name()}
        return st.assume(mk_and(ieq(self.S(st), S), ile(cst(lo), n[SIZE]), n[SIZE] < 2**30, T if hi is None else ile(n[SIZE], hi), self.inv(st)))

    def store_c(self, m, dem, a, I, st, path):
        self.ready(st, 'storeBlock')
        b = self.buffer(st)
        self.owned_buffer(st, b, 'storeBlock')
        self.need('two versions of a block are never in the cache', st, mk_imp(ieq(self.kf('_currentBlock', st), self.g), mk_not(self.rd(st, IN))))
        S = iite(ieq(self.kf('_currentBlock', st), self.g), self.content(st), self.S(st))
        st = self.renew(st, path, S)
        self.set_k(st, '_isCurrentBlockChanged', cst(0))
        for c, q in m.resolve_alts(st, b): self.release(st, q, c)
        nb = Ptr('fresh!' + path, (), cst(0))
        if st.ctx: raise Unsupported('storing blocks in a loop')
        if nb.reg not in m.regions: m.region(vc.Region(nb.reg, None))
        self.bset(st, nb, NR, cst(0))
        self.bset(st, nb, VAL, cst(0))
        m.store(st, Ptr('K', (), cst(self.C.o['_timeBlockBuffer'])), nb, PTR)
        return st, None

    def load_c(self, m, dem, a, I, st, path):
        self.ready(st, 'loadBlock')
        b = self.buffer(st)
        self.owned_buffer(st, b, 'loadBlock')
        self.need('the values of the current block are stored before another block is loaded', st, mk_imp(ieq(self.kf('_currentBlock', st), self.g), mk_or(ieq(self.content(st), self.S(st)), ieq(self.bget(st, b, NR), cst(0)))))
        st = self.renew(st, path, self.S(st), 0, self.rd(st, SIZE))
        self.set_k(st, '_currentBlock', a[1])
        self.set_k(st, '_isCurrentBlockChanged', cst(0))
        v = self.fresh(st, 'loaded', path)
        self.bset(st, b, NR, self.rows(st))
        self.bset(st, b, VAL, v)
        return st.assume(mk_imp(mk_and(ieq(a[1], self.g), ilt(self.r, self.rows(st))), ieq(v, self.S(st)))).assume(mk_imp(ieq(a[1], self.g), mk_not(self.rd(st, IN)))), None

    def stop_c(self, m, dem, a, I, st, path):
        stop, thr = self.kf('_stopThreads', st), self.rd(st, THR)
        self.need('stopThreads: threads that were not stopped, or nothing to write', st, mk_and(mk_imp(thr, ieq(stop, cst(0))), mk_imp(mk_not(thr), ieq(self.rd(st, SIZE), cst(0)))))
        self.need('stopThreads: the mutex is free', st, ieq(self.rd(st, LOCK), cst(0)), 'lock')
        S = self.S(st)
        self.wr(st, FVAL, S)
        self.wr(st, IN, F)
        self.wr(st, SIZE, cst(0))
        self.wr(st, THR, F)
        self.set_k(st, '_stopThreads', iite(thr, cst(1), stop))
        return st, None

    def init_c(self, m, dem, a, I, st, path):
        self.need('the block size is set once', st, ieq(self.rows(st), cst(0)))
        self.need('initializeRowsPerBlock: nothing was handed to threads before', st, mk_and(mk_not(self.rd(st, THR)), ieq(self.rd(st, SIZE), cst(0)), ieq(self.rd(st, LOCK), cst(0))))
        self.need('the first block has all rows that were written', st, mk_and(ieq(a[1], self.bget(st, self.buffer(st), NR)), ile(cst(1), a[1])))
        self.need('the number of antennas covers every antenna of the first block', st, ieq(a[2], iadd(self.maxant, cst(1))) if self.maxant is not None else F)
        m.store(st, Ptr('D', (), cst(self.M.off['_rowsPerBlock'])), a[1], I32)
        self.wr(st, THR, T)
        self.set_k(st, '_stopThreads', cst(0))
        return st, None

    def use(self, *names):
        """functions that are called by contract in this unit"""
        cs = dict(store=(r'::storeBlock\(', self.store_c), load=(r'::loadBlock\(', self.load_c), stop=(r'::stopThreads\(', self.stop_c), init=(r'::initializeRowsPerBlock\(', self.init_c))
        self.m.contracts[:0] = [(re.compile(cs[n][0]), cs[n][1]) for n in names]

    def arr(self):
        self.p.region('ARR', None)
        self.p.region('ST', None, check=False)

    def consistent(self, st):
        """a block that was not changed has the values that are stored"""
        ch = mk_not(ieq(self.kf('_isCurrentBlockChanged', st), cst(0)))
        cur = self.kf('_currentBlock', st)
        nr = self.bget(st, self.buffer(st), NR)
        return mk_and(mk_imp(mk_and(mk_not(ch), ieq(cur, self.g), ilt(self.r, self.rows(st))), ieq(self.content(st), self.S(st))), mk_imp(ile(cst(1), self.rows(st)), ile(nr, self.rows(st))), mk_imp(ieq(cur, self.g), mk_not(self.rd(st, IN))))

    def free_storage(self, m, dem, a, I, st, path):
        self.release(st, Ptr('ST', (), cst(0)))
        return st, None

    def assign(self, m, dem, a, I, st, path):
        al = m.resolve_alts(st, a[1])
        z = T
        for o in range(0, 8 if self.k == 'cf' else 4, 4):
            v = m.load(st, Ptr(a[1].reg, a[1].fam, iadd(a[1].off, cst(o))), ir.FLOAT, 'value')
            r, _ = m.prove(st.pc, feq(v, ZERO))
            if r != 'proved': z = F
        self.wr(st, OUT, cst(0) if is_t(z) else self.fresh(st, 'assigned', path))
        return st, a[0]

    def sysconf(self, m, dem, a, I, st, path):
        v = self.fresh(st, 'cpus', path)
        m.nonneg_names |= {v.decl().name()}
        return st.assume(mk_and(ile(cst(1), v), v < 2**20)), v

    # ---- loop invariants
    def view_cell(self, vw, lc, key, idx):
        """a cell that the loop may or may not change"""
        if key not in lc.hst.mem: self.m.get_cell(lc.st0, key, 'bool' if key[0] == 'CACHE' and key[1] in BOOLS else 'int'); lc.hst.mem.setdefault(key, lc.st0.mem[key])
        try: c = vw.cell(key)
        except KeyError: c = lc.st0.mem[key]
        return c.read(idx)

    def at_view(self, vw, lc, w): return self.view_cell(vw, lc, ('CACHE', w), (cst(0),))

    def templates(self, m, lc):
        """what a loop may rely on"""
        out = []
        has = [w for w in (LOCK, DIRTY, ME, LAST, LASTB, SLOT, SIZE, IN, CVAL, FVAL, THR, RAW, SYM, DEC) if ('CACHE', w) in lc.hst.mem]
        KS = ('K', self.C.o['_stopThreads'])
        get = lambda vw, w: vw.cell(('CACHE', w)).read((cst(0),))
        for w in has:
            if w in (LOCK, DIRTY, ME, LAST, LASTB, SLOT): out += [vc.Cand('g%d==%d' % (w, v), ('mem', ('CACHE', w)), (lambda vw, K, x, w=w, v=v: ieq(get(vw, w), cst(v)))) for v in (0, 1, -1)]
            if w == THR: out += [vc.Cand('threads', ('mem', ('CACHE', w)), (lambda vw, K, x, v=v, w=w: get(vw, w) == v)) for v in (T, F)]
            if w in (RAW, SYM, DEC): out += [vc.Cand('same', ('mem', ('CACHE', w)), (lambda vw, K, x, w=w, v=self.rd(lc.st0, w): ieq(get(vw, w), v)))]
        if {IN, SIZE} <= set(has):
            out += [vc.Cand('size', ('mem', ('CACHE', SIZE)), lambda vw, K, x: mk_and(ile(cst(0), get(vw, SIZE)), mk_imp(get(vw, IN), ile(cst(1), get(vw, SIZE)))))]
        if KS in lc.hst.mem:
            stop = lambda vw: vw.cell(KS).read((cst(0),))
            out += [vc.Cand('stop flag', ('mem', KS), lambda vw, K, x: mk_or(ieq(stop(vw), cst(0)), ieq(stop(vw), cst(1))))]
            if IN in has and ('ITEM', self.flag) in lc.hst.mem: out += [vc.Cand('stopped when taken', ('mem', KS), lambda vw, K, x: mk_imp(mk_and(mk_not(ieq(stop(vw), cst(0))), get(vw, IN)), mk_not(ieq(self.view_cell(vw, lc, ('ITEM', self.flag), (self.g, cst(0))), cst(0)))))]
        if not self.worker and {IN, CVAL, FVAL} <= set(has):
            S0, I0, C0 = self.S(lc.st0), self.rd(lc.st0, IN), self.rd(lc.st0, CVAL)
            out += [vc.Cand('stored values', ('mem', ('CACHE', FVAL)), lambda vw, K, x: mk_and(ieq(iite(get(vw, IN), get(vw, CVAL), get(vw, FVAL)), S0), mk_imp(get(vw, IN), mk_and(I0, ieq(get(vw, CVAL), C0)))))]
            out += [vc.Cand('not put in by others', ('mem', ('CACHE', IN)), lambda vw, K, x: mk_imp(get(vw, IN), I0))]
        # iterators, and what a flag says about them
        nodes = [(('phi', i), (lambda vw, i=i: pnode(vw.phis[i]))) for i, v in enumerate(lc.hvals) if isinstance(v, Ptr) and v.reg == 'NODE']
        for key, c in list(lc.hst.mem.items()):
            if key in lc.hdr_cells and c.kind == 'ptr' and m.regions[key[0]].elem is None and not m.regions[key[0]].arity:
                v = c.read((cst(0),))
                if isinstance(v, Ptr) and v.reg == 'NODE': nodes.append((('mem', key), (lambda vw, key=key: pnode(vw.cell(key).read((cst(0),))))))
        bools = [(('phi', i), (lambda vw, i=i: vw.phis[i])) for i, v in enumerate(lc.hvals) if z3.is_expr(v) and z3.is_bool(v)]
        g = self.g
        inn = lambda vw: self.at_view(vw, lc, IN)
        n_ = lambda vw: self.at_view(vw, lc, SIZE)
        fl = lambda vw, x: self.view_cell(vw, lc, ('ITEM', self.flag), (x, cst(0)))
        free = lambda vw: ieq(fl(vw, g), cst(0))
        for trig, X in nodes:
            cs = [('iterator', lambda vw, X=X: mk_and(ile(cst(-1), X(vw)), X(vw) < 2**64)), ('iterator refers to an item', lambda vw, X=X: mk_and(mk_imp(ieq(X(vw), g), inn(vw)), mk_imp(ile(cst(0), X(vw)), ile(cst(1), n_(vw)))))]
            if not self.keys:
                cs += [('items before the iterator are taken', lambda vw, X=X: mk_imp(mk_and(mk_or(ilt(g, X(vw)), ieq(X(vw), cst(-1))), inn(vw)), mk_not(free(vw))))]
            for tb, b in bools:
                cs += [('flag: at an item', lambda vw, X=X, b=b: mk_imp(b(vw), mk_and(ile(cst(0), X(vw)), mk_imp(ieq(X(vw), g), free(vw)), ieq(fl(vw, X(vw)), cst(0)))))]
                out += [vc.Cand('flag: nothing', tb, (lambda vw, K, x, b=b: mk_imp(mk_and(mk_not(b(vw)), inn(vw)), mk_not(free(vw)))))]
            for key in self.keys: cs += [('iterator of the key', lambda vw, X=X, key=key: mk_and(mk_or(ieq(X(vw), cst(-1)), ieq(X(vw), key)), mk_imp(ieq(key, g), ieq(X(vw), g) == inn(vw))))]
            for nm, f in cs: out += [vc.Cand(nm, trig, (lambda vw, K, x, f=f: f(vw)))]
        # the rows of a block that is being filled: every row below the counter has its value
        for key in list(lc.hst.mem):
            if key[1] not in (NR, VAL) or key not in lc.hdr_cells: continue
            b = key[0]
            reg = m.regions[b]
            if reg.arity or reg.elem is not None: continue
            q = lambda vw, w: vw.cell((b, w)).read((cst(0),)) if w else None
            if key[1] == NR:
                out += [vc.Cand('rows', ('mem', key), (lambda vw, K, x, b=b: ieq(vw.cell((b, NR)).read((cst(0),)), K)))]
            else:
                ini = self.m.get_cell(lc.st0, (b, VAL), 'int').read((cst(0),))
                fv = self.rd(lc.st0, FVAL)
                raw = self.rd(lc.st0, RAW)
                for nm, val, pre in (('zero', cst(0), T), ('file', fv, ieq(raw, self.g))):
                    out += [vc.Cand('rows so far: ' + nm, ('mem', key), (lambda vw, K, x, b=b, val=val, pre=pre: mk_imp(mk_and(pre, ilt(self.r, K)), ieq(vw.cell((b, VAL)).read((cst(0),)), val))))]
        return out


def nothing(m, dem, a, I, st, path): return st, None


def pnode(q):
    if not isinstance(q, Ptr) or q.reg != 'NODE': raise Unsupported('iterator %r' % (q,))
    return norm(expr(pdiv_const(poly(q.off), 64)))




def m_range(m, p, n, st):
    reg = m.regions.get(p.reg)
    if reg is None or reg.elem is None: raise Unsupported('data %r' % (p,))
    L = m.rlen(st, reg, p.fam)
    g = mk_and(ile(cst(0), p.off), m.not_freed(st, p))
    return g if L is None else mk_and(g, ile(iadd(p.off, n), imul(L, cst(reg.elem))))


def cls_of(k): return [c for x, t, c in TYPES if x == k][0]


def unit(k, name, fn, target, worker=False):
    """decorator: a function under contract, for both kinds of column"""
    def deco(f):
        t = '%s::%s' % (cls_of(k), target)

        def g(mod):
            W = World('%s-%s' % (name, k), mod, k, '@vf_%s_%s' % (fn, k), t, worker=worker)
            W.s0 = init()
            f(W, W.p)
            return W.p.finish()
        UNITS.append(('%s-%s' % (name, k), t, g))
        return g
    return deco


UNITS = []
FILE = []


def file_unit(name, fn, target):
    """the file and its number of blocks are used under the mutex of the manager, which is free afterwards"""
    def deco(f):
        def g(mod):
            p = layout.start(name, mod, fn, target)
            M = Manager(p, mod)
            m = p.m
            mu = const_ret(mod, '@vf_off_M_mutex')
            p.region('IOL', None, check=False)
            cell = ('IOL', 0)
            rd = lambda st: m.get_cell(st, cell, 'int').read((cst(0),))
            p.requires(ieq(rd(init()), cst(0)))
            held = lambda st: ieq(rd(st), cst(1))

            def op(v, what):
                def run(m, dem, a, I, st, path):
                    al = m.resolve_alts(st, a[0])
                    if len(al) != 1 or al[0][1].reg != 'D' or const_of(al[0][1].off) != mu: raise Unsupported('mutex %r' % (a[0],))
                    m.obligation(what, 'lock', st, ieq(rd(st), cst(1 - v)))
                    m.write_cell(st, cell, 'int', vc.Desc((), T, (cst(0),), cst(v)))
                    return st, None
                return run

            def guard(m, st, q, size, c, write, v):
                if const_of(q.off) == M.off['_nBlocksInFile']: m.obligation('the number of blocks is used under the mutex', 'lock', st, mk_imp(c, held(st)))
            m.guards['D'] = guard

            def under(f_):
                def run(m, dem, a, I, st, path):
                    m.obligation('the file is used under the mutex', 'lock', st, held(st))
                    return f_(m, dem, a, I, st, path)
                return run
            m.contracts = [(r_, under(f_) if re.search(r'read|write|seek|tell|clear', r_.pattern) and 'stream' in r_.pattern else f_) for r_, f_ in m.contracts]
            m.contracts[:0] = [(re.compile(r'^std::(unique_lock|lock_guard|scoped_lock)<std::mutex>::'), lambda m, dem, a, I, st, path: m.run_function(dem, a, st, path)),
                               (re.compile(r'^std::mutex::lock\('), op(1, 'a mutex is not locked twice')), (re.compile(r'^std::mutex::unlock\('), op(0, 'a mutex is unlocked by its owner'))]
            f(p, M)
            if p.state is not None: p.ensures('the mutex is released', ieq(rd(p.state), cst(0)))
            p.cover()
            return p.finish()
        FILE.append((name, target, g))
        return g
    return deco


def io_args(p, M):
    layout.column(p, M)
    b, n = p.nat('b'), p.nat('size')
    p.requires(mk_and(b < 2**28, n < 2**32))
    p.region('data', 1, n)
    return [Ptr('K', (), cst(0)), b, Ptr('data', (), cst(0)), n]


@file_unit('file-write', '@vf_write', 'DyscoStMan::writeCompressedData')
def _(p, M):
    p.m.io_errors = True
    p.run(io_args(p, M), nothrow=False)


@file_unit('file-read', '@vf_read', 'DyscoStMan::readCompressedData')
def _(p, M): p.run(io_args(p, M), nothrow=False)


@file_unit('file-count', '@vf_count', 'DyscoStMan::nBlocksInFile')
def _(p, M):
    p.run([Ptr('D', (), cst(0))])
    p.ensures('the number of blocks', ieq(p.ret, M.get('_nBlocksInFile', init())))


K0 = lambda: Ptr('K', (), icst(0))


def running(W):
    """the block size is known and the threads are running"""
    W.p.requires(mk_and(W.rd(W.s0, THR), ieq(W.stop0, cst(0)), ile(cst(1), W.R), ieq(W.C.bs, W.total), ilt(W.r, W.R)))


def idle(W, st):
    W.p.ensures('the mutex is released', ieq(W.rd(st, LOCK), cst(0)), st=st)
    W.p.ensures('changes are announced', ieq(W.rd(st, DIRTY), cst(0)), st=st)


def define(k):
    @unit(k, 'thread', 'thread', 'EncodingThreadFunctor::operator(), isWriteItemAvailable', worker=True)
    def _(W, p):
        p.requires(mk_and(W.rd(W.s0, THR), ile(cst(1), W.R), ieq(W.C.bs, W.total)))
        def wait_ok(st):
            W.need('no waiting when told to stop', st, ieq(W.kf('_stopThreads', st), cst(0)), 'progress')
            return mk_imp(W.rd(st, IN), mk_not(ieq(W.flagof(st, W.g), cst(0))))
        W.wait_ok = wait_ok
        p.run([K0()])
        st = p.state
        p.ensures('a thread ends only when it is told to stop', mk_not(ieq(W.kf('_stopThreads', st), cst(0))))
        p.ensures('a thread that ends has finished the item that it has taken', ieq(W.rd(st, ME), cst(-1)))
        idle(W, st)
        p.cover()

    @unit(k, 'next', 'next', 'isWriteItemAvailable', worker=True)
    def _(W, p):
        W.m.contracts = [c for c in W.m.contracts if not c[0].search('::isWriteItemAvailable(')]
        p.region('O', None, fields={0: Ptr('NODE', (), imul(icst(64), p.nat('x0')))})
        W.locked = lambda st: T          # documented: called with the mutex locked
        s0 = W.s0
        p.run([K0(), Ptr('O', (), icst(0))])
        st = p.state
        x = pnode(p.cell('O', 0, 'ptr', [icst(0)]))
        p.ensures('an item that no thread has taken is found when there is one', W.next_spec(st, x, p.ret if z3.is_bool(p.ret) else mk_not(ieq(p.ret, icst(0)))))
        p.ensures('the item that is found is not taken', mk_imp(ile(icst(0), x), ieq(W.flagof(st, x), icst(0))))
        for w in (IN, CVAL, FVAL, SIZE, ME, LAST, LOCK, DIRTY): p.ensures('the cache is left alone', W.rd(st, w) == W.rd(s0, w))
        p.cover()

    @unit(k, 'stop', 'stop', 'stopThreads')
    def _(W, p):
        p.requires(mk_imp(W.rd(W.s0, THR), ieq(W.stop0, cst(0))))
        W.wait_ok = lambda st: mk_and(W.rd(st, THR), ile(cst(1), W.rd(st, SIZE)))
        p.run([K0()], nothrow=False)
        st = p.state
        for s_, what, path in p.m.throws: p.ensures('refused only when blocks are left without threads', mk_and(mk_not(W.rd(W.s0, THR)), ile(cst(1), W.rd(W.s0, SIZE))), st=s_)
        p.ensures('all threads have ended', mk_not(W.rd(st, THR)))
        p.ensures('nothing is left to write', mk_and(ieq(W.rd(st, SIZE), cst(0)), mk_not(W.rd(st, IN))))
        p.ensures('every block that was stored is in the file', ieq(W.rd(st, FVAL), W.S(W.s0)))
        idle(W, st)
        p.cover(pre=(W.rd(W.s0, THR),))

    @unit(k, 'store', 'store', 'storeBlock')
    def _(W, p):
        running(W)
        W.wait_ok = lambda st: ile(cst(1), W.rd(st, SIZE))
        p.requires(mk_imp(ieq(W.cur, W.g), mk_not(W.rd(W.s0, IN))))
        v = W.content(W.s0)
        p.run([K0()])
        st = p.state
        p.ensures('the block is stored, other blocks are left alone', ieq(W.S(st), iite(ieq(W.cur, W.g), v, W.S(W.s0))))
        p.ensures('nothing is left to store', ieq(W.kf('_isCurrentBlockChanged', st), cst(0)))
        b = W.buffer(st)
        W.owned_buffer(st, b, 'afterwards')
        p.ensures('a new empty buffer is used for the next block', mk_and(*[mk_imp(c, F if q.reg in ('BUF', 'NULL') else T) for c, q in alts(b)] + [ieq(W.bget(st, b, NR), cst(0))]))
        idle(W, st)
        p.cover()

    @unit(k, 'load', 'load', 'loadBlock')
    def _(W, p):
        running(W)
        W.wait_ok = lambda st: ile(cst(1), W.rd(st, SIZE))
        b = p.nat('b')
        p.requires(b < 2**28)
        W.keys = [b]
        s0 = W.s0
        p.run([K0(), b])
        st = p.state
        p.ensures('the buffer has the last values of the block', mk_imp(ieq(b, W.g), ieq(W.content(st), W.S(s0))))
        p.ensures('the buffer has all rows of the block', ieq(W.bget(st, W.buffer(st), NR), W.R))
        p.ensures('the block is the current block', mk_and(ieq(W.kf('_currentBlock', st), b), ieq(W.kf('_isCurrentBlockChanged', st), cst(0))))
        p.ensures('no version of the block is left in the cache', mk_imp(ieq(b, W.g), mk_not(W.rd(st, IN))))
        p.ensures('what is stored stays the same', ieq(W.S(st), W.S(s0)))
        idle(W, st)
        p.cover()


    def user(W):
        """between two calls of the user: what is in the file, in the cache and in the buffer belongs together"""
        W.p.requires(W.consistent(W.s0))
        W.arr()
        W.rowno = row = W.p.nat('row')
        W.p.requires(row < 2**32)
        return row

    def is_row(W, st, row):
        R = W.rows(st)
        return mk_and(ieq(idiv(row, R), W.g), ieq(imod(row, R), W.r))

    def afterwards(W, st):
        W.p.ensures('file, cache and buffer still belong together', W.consistent(st), st=st)
        W.p.ensures('the cache is what its size says', W.inv(st), st=st)
        idle(W, st)

    @unit(k, 'shutdown', 'shut', 'shutdown')
    def _(W, p):
        W.use('store', 'stop')
        p.requires(W.consistent(W.s0))
        run_ = mk_and(W.rd(W.s0, THR), ieq(W.stop0, cst(0)), ile(cst(1), W.R), ilt(W.r, W.R))
        rest = mk_and(mk_not(W.rd(W.s0, THR)), ieq(W.rd(W.s0, SIZE), cst(0)), mk_not(W.changed))
        p.requires(mk_or(run_, rest))
        p.run([K0()])
        st = p.state
        p.ensures('all values that the user has written are in the file', mk_imp(ilt(W.r, W.R), ieq(W.rd(st, FVAL), W.A(W.s0))))
        p.ensures('nothing is left to write', mk_and(ieq(W.rd(st, SIZE), cst(0)), mk_not(W.rd(st, IN)), ieq(W.kf('_isCurrentBlockChanged', st), cst(0))))
        p.ensures('all threads have ended', mk_not(W.rd(st, THR)))
        idle(W, st)
        p.cover(pre=(W.rd(W.s0, THR), W.changed))

    @unit(k, 'get', 'get', 'getValues')
    def _(W, p):
        W.use('store', 'load')
        running(W)
        row = user(W)
        s0 = W.s0
        p.run([K0(), row, Ptr('ARR', (), cst(0))])
        st = p.state
        p.ensures('the user gets the last value that was written to the row', mk_imp(is_row(W, s0, row), ieq(W.rd(st, OUT), W.A(s0))))
        p.ensures('reading does not change a value', ieq(W.A(st), W.A(s0)))
        p.ensures('the block of the row is the current block', ieq(W.kf('_currentBlock', st), idiv(row, W.R)))
        afterwards(W, st)
        p.cover(pre=(W.changed,))

    @unit(k, 'get-early', 'get', 'getValues')
    def _(W, p):
        W.use('store', 'load')
        p.requires(ieq(W.R, cst(0)))
        row = user(W)
        p.run([K0(), row, Ptr('ARR', (), cst(0))])
        st = p.state
        p.ensures('the values of rows are zero before a first block is known', ieq(W.rd(st, OUT), cst(0)))
        p.ensures('nothing changes', mk_and(ieq(W.content(st), W.content(W.s0)), ieq(W.kf('_currentBlock', st), W.cur), ieq(W.kf('_isCurrentBlockChanged', st), W.kf('_isCurrentBlockChanged', W.s0))))
        p.cover()

    @unit(k, 'put', 'put', 'putValues')
    def _(W, p):
        W.use('store', 'load', 'init')
        running(W)
        row = user(W)
        s0 = W.s0
        # documented: the rows of the first block are written consecutively; every other block is loaded with all its rows
        p.requires(mk_imp(ieq(W.cur, idiv(row, W.R)), ile(imod(row, W.R), W.bget(s0, W.buffer(s0), NR))))
        v = W.rd(s0, OUT)
        p.run([K0(), row, Ptr('ARR', (), cst(0))])
        st = p.state
        p.ensures('the row gets the value of the user and no other value changes', ieq(W.A(st), iite(is_row(W, s0, row), v, W.A(s0))))
        p.ensures('the block is stored later', mk_and(ieq(W.kf('_currentBlock', st), idiv(row, W.R)), mk_not(ieq(W.kf('_isCurrentBlockChanged', st), cst(0)))))
        p.ensures('the array of the user is left alone', ieq(W.rd(st, OUT), v))
        afterwards(W, st)
        p.cover(pre=(W.changed,))

    @unit(k, 'put-first', 'put', 'putValues')
    def _(W, p):
        W.use('store', 'load', 'init')
        s0, R0 = W.s0, W.R
        row = user(W)
        n0 = W.bget(s0, W.buffer(s0), NR)
        p.requires(mk_and(ieq(R0, cst(0)), mk_not(W.rd(s0, THR)), ieq(W.rd(s0, SIZE), cst(0)), mk_not(W.rd(s0, IN)), ieq(W.rd(s0, FVAL), cst(0)), ieq(n0, row), W.changed == mk_not(ieq(n0, cst(0))), mk_imp(W.changed, ieq(W.cur, cst(0)))))
        p.requires(row < 2**20)
        v = W.rd(s0, OUT)
        last = {c: W.m.get_cell(s0, ('K', W.C.o[f]), 'fp' if c == 'time' else 'int').read((cst(0),)) for c, f in LASTS}
        p.requires(mk_and(mk_not(last['time'].nan), mk_not(last['time'].inf)))
        p.run([K0(), row, Ptr('ARR', (), cst(0))])
        st = p.state
        R = W.rows(st)
        eq = lambda c, x, y: feq(x, y) if c == 'time' else ieq(x, y)
        differs = mk_or(*[mk_not(eq(c, last[c], W.key_of(c, row))) for c, f in LASTS])
        p.ensures('the block is complete with the first row of another time, field or data description', mk_not(ieq(R, cst(0))) == mk_and(mk_not(ieq(n0, cst(0))), differs))
        p.ensures('a complete first block has the rows that were written', mk_imp(mk_not(ieq(R, cst(0))), ieq(R, row)))
        for c, f in LASTS: p.ensures('the %s of the first block is the one of its first row' % c, eq(c, W.m.get_cell(st, ('K', W.C.o[f]), 'fp' if c == 'time' else 'int').read((cst(0),)), iite(ieq(n0, cst(0)), W.key_of(c, row), last[c]) if c != 'time' else fite(ieq(n0, cst(0)), W.key_of(c, row), last[c])))
        before = iite(ieq(W.g, cst(0)), W.content(s0), cst(0))
        done = mk_not(ieq(R, cst(0)))
        p.ensures('rows of the first block', mk_imp(mk_and(mk_not(done), ieq(W.g, cst(0))), ieq(W.A(st), iite(ieq(W.r, row), v, before))))
        p.ensures('the first row of the second block', mk_imp(mk_and(done, ilt(W.r, R)), ieq(W.A(st), iite(mk_and(ieq(W.g, cst(1)), ieq(W.r, cst(0))), v, before))))
        p.ensures('the block is stored later', mk_and(ieq(W.kf('_currentBlock', st), I1(done)), mk_not(ieq(W.kf('_isCurrentBlockChanged', st), cst(0)))))
        p.ensures('rows are counted', mk_imp(mk_not(done), ieq(W.bget(st, W.buffer(st), NR), iadd(row, cst(1)))))
        p.ensures('threads run once the size of a block is known', W.rd(st, THR) == done)
        afterwards(W, st)
        p.cover()


    @unit(k, 'start', 'start', 'InitializeAfterNRowsPerBlockIsKnown')
    def _(W, p):
        W.use('stop')
        m, s0 = W.m, W.s0
        na = W.M.get('_antennaCount', s0)
        m.nonneg_names |= {na.decl().name()}
        p.requires(mk_and(mk_not(W.rd(s0, THR)), ieq(W.rd(s0, SIZE), cst(0)), ile(cst(1), W.R), na >= 0, na < 2**20))
        n0 = W.C.na
        W.C.na = na
        meta, nsym = W.C.counts(W.R)
        total = iadd(imul(cst(4), meta), idiv(iadd(imul(nsym, W.C.bits), cst(7)), cst(8)))
        W.C.na = n0
        p.requires(total < 2**32)
        W.room = {}

        def resize(m, dem, a, I, st, path):
            al = m.resolve_alts(st, a[0])
            if len(al) != 1 or al[0][1].reg != 'K': raise Unsupported('vector %r' % (a[0],))
            W.room[const_of(al[0][1].off)] = a[1]
            return st, None

        def create(m, dem, a, I, st, path):
            W.need('threads start with the stop flag cleared', st, ieq(W.kf('_stopThreads', st), cst(0)), 'progress')
            W.need('threads start for this column', st, T if isinstance(a[1], Ptr) and a[1].reg == 'K' and const_of(a[1].off) == 0 else F)
            W.need('threads start when the sizes of a block are known', st, mk_and(ieq(W.kf('_blockSize', st), total), ieq(W.kf('_antennaCount', st), na)))
            W.need('threads start without the mutex', st, ieq(W.rd(st, LOCK), cst(0)), 'lock')
            W.wr(st, THR, T)
            return st, None

        def more(m_, lc):
            key = ('CACHE', THR)
            if key not in lc.hst.mem: return []
            return [vc.Cand('a thread runs after the first pass', ('mem', key), lambda vw, K, x: vw.cell(key).read((cst(0),)) == ile(cst(1), K))]
        m.templates.append(more)
        m.contracts[:0] = [(re.compile(r'^aocommon::UVector<.*>::resize\('), resize), (re.compile(r'threadgroup::create_thread'), create)]
        p.run([K0()])
        st = p.state
        p.ensures('threads are running', mk_and(W.rd(st, THR), ieq(W.kf('_stopThreads', st), cst(0))))
        p.ensures('the size of a block is what its parts take', mk_and(ieq(W.kf('_blockSize', st), total), ieq(W.kf('_antennaCount', st), na)))
        for f, n in (('_packedBlockReadBuffer', total), ('_unpackedSymbolReadBuffer', nsym)): p.ensures('%s has room for a block' % f, ieq(W.room.get(W.C.o[f], cst(-1)), n))
        p.ensures('values are left alone', mk_and(ieq(W.A(st), W.A(s0)), W.inv(st)))
        idle(W, st)
        p.cover()


LASTS = [('time', '_lastWrittenTime'), ('field', '_lastWrittenField'), ('dataDescId', '_lastWrittenDataDescId')]
TIME = z3.Function('TIME', z3.IntSort(), z3.RealSort())
FIELD, DDID = (z3.Function(n, z3.IntSort(), z3.IntSort()) for n in ('FIELD', 'DDID'))
for k_ in ('cf', 'f'): define(k_)


def units(pid):
    if pid == 'C17': names = ('next', 'thread', 'stop', 'store', 'load', 'start', 'shutdown')
    else: names = ('get', 'get-early', 'put', 'put-first', 'shutdown', 'load', 'store', 'stop', 'next', 'thread', 'start')
    us = [u for n in names for u in UNITS if u[0].rsplit('-', 1)[0] == n]
    us.sort(key=lambda u: {'thread': 0, 'load': 1}.get(u[0].rsplit('-', 1)[0], 2))
    return us + FILE
