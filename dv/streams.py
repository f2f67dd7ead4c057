"""Trusted contracts of std::ostream::write, std::istream::read, seek, tell and the error state.

A stream object in region R has ghost cells 'strm!R': position, fail bit, size of the file.  A written value of n bytes
is one entry of the typed file contents ('file!R!<type>' at its position); 'file!R!own' tells for every byte which value
it belongs to, so that overlapping values are noticed.  A file that is only read is an arbitrary one: the value of each
type at each position is an unknown.  Text is a sequence of single bytes."""
import re, z3
from ir import Unsupported, PTR, I64
from terms import *
import terms as TM
import vc, strs, externs
from vc import Region, Desc

KEEP = [r'std::basic_(o|i)stream<.*>::(write|read|seekp|seekg|tellp|tellg)\(', r'std::basic_ios<.*>::(fail|good|bad|eof|clear|operator bool|rdstate|setstate|operator!)', r'std::basic_(i|o)?fstream<']
TAGS = {'1': 1, '2': 2, '4': 4, '8': 8, '4f': 5, '8f': 9}
ISFP = {'4f', '8f'}
SIZES = {'1': 1, '2': 2, '4': 4, '8': 8, '4f': 4, '8f': 8}
TABLE = []
POS, FAIL, SIZE = 0, 8, 16


def h(rx):
    def deco(f):
        def g(m, name, args, I, st, path):
            externs.USED.add(externs.demangle(name))
            return f(m, externs.demangle(name), args, I, st, path)
        TABLE.append((re.compile(rx), g))
        return f
    return deco


def stream(m, st, p):
    al = m.resolve_alts(st, p)
    one = getattr(m, 'one_file', None)      # all streams are opened on the same file, one after the other
    if one: return one
    if len(al) != 1: raise Unsupported('choice of streams')
    return al[0][1].reg


def ghost(m, R):
    n = 'strm!' + R
    if n not in m.regions:
        m.region(Region(n, None, arity=0, check=False))
        m.nonneg_names = m.nonneg_names | {'m0!%s!%d' % (n, POS), 'm0!%s!%d' % (n, SIZE)}
    return n


def rd(m, st, R, w):
    return m.get_cell(st, (ghost(m, R), w), 'bool' if w == FAIL else 'int').read((icst(0),))


def wr(m, st, R, w, v):
    m.write_cell(st, (ghost(m, R), w), 'bool' if w == FAIL else 'int', Desc((), T, (icst(0),), v))


def freg(m, R, t):
    n = 'file!%s!%s' % (R, t)
    if n not in m.regions:
        m.region(Region(n, 1, None, arity=0, check=False))
        if t != 'own' and t not in ISFP:
            # values of the file are unsigned
            x = z3.Int('fx_')
            d = m.get_cell(vc.State((), {}, ()), (n, 0), 'int').base.decls[0]
            m.nonneg_names = m.nonneg_names | {d.name()}
            m.add_fact([d], (x,), mk_and(d(x) >= 0, d(x) < (1 << (8 * SIZES[t]))))
    return (n, 0)


def content(m, st, R, t, pos):
    """value of type t at a position"""
    return m.get_cell(st, freg(m, R, t), 'fp' if t in ISFP else 'int').read((pos,))


def owner(m, st, R, pos):
    return m.get_cell(st, freg(m, R, 'own'), 'int').read((pos,))


def owns(start, t): return iadd(imul(icst(64), start), icst(TAGS[t]))


def stored(m, st, R, t, pos):
    """every byte of the value at pos belongs to it (condition on the contents at st)"""
    return mk_and(*[ieq(owner(m, st, R, iadd(pos, icst(i))), owns(pos, t)) for i in range(SIZES[t])])


def put(m, st, R, t, pos, v):
    m.write_cell(st, freg(m, R, t), 'fp' if t in ISFP else 'int', Desc((), T, (pos,), v))
    for i in range(SIZES[t]):
        m.write_cell(st, freg(m, R, 'own'), 'int', Desc((), T, (iadd(pos, icst(i)),), owns(pos, t)))


def put_range(m, st, R, pos, n, val, path):
    j = z3.Int('j!' + path)
    g = mk_and(ile(icst(0), j), ilt(j, n))
    m.write_cell(st, freg(m, R, '1'), 'int', Desc((j,), g, (iadd(pos, j),), val(j)))
    m.write_cell(st, freg(m, R, 'own'), 'int', Desc((j,), g, (iadd(pos, j),), owns(iadd(pos, j), '1')))


def scalar_type(m, st, q, n):
    """type of the scalar object of n bytes at q, None when it is an array"""
    reg = m.regions[q.reg]
    if reg.elem is not None or n not in (1, 2, 4, 8): return None
    ty = getattr(reg, 'ty', None)
    o = const_of(q.off)
    k = (st.mem.get((q.reg, o)) or m.initial.get((q.reg, o)))
    fp = (k is not None and k.kind == 'fp') or (k is None and ty is not None and ty.k in ('float', 'double'))
    if k is None and ty is not None and ty.k == 'fp': fp = True
    return str(n) + ('f' if fp else '')


@h(r'std::basic_ostream<.*>::write\(')
def write(m, dem, args, I, st, path):
    R = stream(m, st, args[0])
    m.wrote = True
    pos, n = rd(m, st, R, POS), args[2]
    for hook in getattr(m, 'on_write', []): hook(m, st, R, pos, n, args[1])
    c = const_of(n)
    al = m.resolve_alts(st, args[1])
    if len(al) != 1: raise Unsupported('write from a choice of buffers')
    q = al[0][1]
    t = scalar_type(m, st, q, c) if c is not None and q.reg in m.regions else None
    if t is not None:
        v = m.get_cell(st, (q.reg, const_of(q.off)), 'fp' if t in ISFP else 'int').read(q.fam + (icst(0),))
        put(m, st, R, t, pos, m.uns(v, 8 * c) if t not in ISFP else v)
    elif q.reg.startswith('sbytes!'):
        m.obligation('bytes written are in the string', 'bounds', st, externs.m_range_ok(m, q, n, st))
        put_range(m, st, R, pos, n, lambda j: norm(strs.SBYTE(q.fam[-1], iadd(q.off, j))), path)
    else:
        if q.reg not in m.regions: raise Unsupported('write from %r' % (q,))
        m.obligation('bytes written are in the buffer', 'bounds', st, externs.m_range_ok(m, q, n, st))
        if m.regions[q.reg].elem != 1:
            # an object of unknown layout: contents unknown
            U = z3.Function('wr!' + path, z3.IntSort(), z3.IntSort())
            put_range(m, st, R, pos, n, lambda j: norm(U(j)), path)
        else:
            b = m.get_cell(st, (q.reg, 0), 'bv8' if 8 in m.bv else 'int')
            put_range(m, st, R, pos, n, lambda j: b.read(q.fam + (iadd(q.off, j),)), path)
    wr(m, st, R, POS, iadd(pos, n))
    if getattr(m, 'io_errors', False): wr(m, st, R, FAIL, mk_or(rd(m, st, R, FAIL), m.sym('ioerr!' + path, 'bool', st.ctx)))
    return st, args[0]


@h(r'std::basic_istream<.*>::read\(')
def read(m, dem, args, I, st, path):
    R = stream(m, st, args[0])
    if getattr(m, 'wrote', False): raise Unsupported('read after a write to the stream')
    pos, n = rd(m, st, R, POS), args[2]
    for hook in getattr(m, 'on_read', []): hook(m, st, R, pos, n, args[1])
    al = m.resolve_alts(st, args[1])
    if len(al) != 1: raise Unsupported('read into a choice of buffers')
    q = al[0][1]
    fail0 = rd(m, st, R, FAIL)
    ok = mk_and(mk_not(fail0), ile(iadd(pos, n), rd(m, st, R, SIZE)))
    c = const_of(n)
    left = isub(rd(m, st, R, SIZE), pos)
    count = iite(fail0, icst(0), iite(ile(iadd(pos, n), rd(m, st, R, SIZE)), n, iite(ile(left, icst(0)), icst(0), left)))
    t = scalar_type(m, st, q, c) if c is not None and q.reg in m.regions else None
    if t is not None:
        v = content(m, st, R, t, pos)
        kind = 'fp' if t in ISFP else 'int'
        key = (q.reg, const_of(q.off))
        bad = m.sym('readfail!' + path, kind, st.ctx)
        if kind == 'int':
            m.fact_on(bad, st.ctx, mk_and(bad >= 0, bad < (1 << (8 * c))))
            m.nonneg_names = m.nonneg_names | {'readfail!' + path}
        m.write_cell(st, key, kind, Desc((), T, q.fam + (icst(0),), vite(ok, v, bad)))
    else:
        if q.reg not in m.regions: raise Unsupported('read into %r' % (q,))
        m.obligation('bytes read fit in the buffer', 'bounds', st, externs.m_range_ok(m, q, n, st))
        if m.regions[q.reg].elem != 1: raise Unsupported('read into an object of another type')
        # the bytes that are there are stored, also when there are fewer than asked for
        j = z3.Int('j!' + path)
        if q.reg in m.read_only: m.obligation('write to read-only %s' % q.reg, 'frame', st, F)
        m.write_cell(st, (q.reg, 0), 'int', Desc((j,), mk_and(ile(icst(0), j), ilt(j, count)), q.fam + (iadd(q.off, j),), content(m, st, R, '1', iadd(pos, j))))
    wr(m, st, R, POS, iite(ok, iadd(pos, n), icst(-1)))
    wr(m, st, R, FAIL, mk_not(ok))
    # std::istream::gcount() is inlined: the count is the first member of std::istream
    for c_, s_ in m.resolve_alts(st, args[0]):
        if s_.reg in m.regions: m.store(st, Ptr(s_.reg, s_.fam, iadd(s_.off, icst(8))), count, I64)
    return st, args[0]


@h(r'std::basic_(i|o)stream<.*>::seek(p|g)\(')
def seek(m, dem, args, I, st, path):
    R = stream(m, st, args[0])
    ts = strs.split_args(dem)
    if len(ts) == 2:
        d = const_of(args[2])
        if d == 0: p = args[1]
        elif d == 2: p = iadd(rd(m, st, R, SIZE), args[1])
        elif d == 1: p = iadd(rd(m, st, R, POS), args[1])
        else: raise Unsupported('seek direction')
    else: p = args[1]
    if not z3.is_expr(p): raise Unsupported('seek position')
    for hook in getattr(m, 'on_seek', []): hook(m, st, R, p)
    wr(m, st, R, POS, p)
    return st, args[0]


@h(r'std::basic_ios<.*>::fail\(\) const|std::basic_ios<.*>::operator!\(\) const')
def fail(m, dem, args, I, st, path): return st, rd(m, st, stream(m, st, args[0]), FAIL)


@h(r'std::basic_ios<.*>::clear\(')
def clear(m, dem, args, I, st, path):
    if const_of(args[1]) != 0: raise Unsupported('stream state')
    R = stream(m, st, args[0])
    wr(m, st, R, FAIL, F)
    wr(m, st, R, POS, m.sym('pos!' + path, 'int', st.ctx))
    return st, None


@h(r'std::basic_(i|o)stream<.*>::tell(p|g)\(\)')
def tell(m, dem, args, I, st, path):
    R = stream(m, st, args[0])
    v = iite(rd(m, st, R, FAIL), icst(-1), rd(m, st, R, POS))
    return st, vc.Agg([v, icst(0)])


@h(r'std::basic_fstream<.*>::basic_fstream\(')
def ctor(m, dem, args, I, st, path):
    R = stream(m, st, args[0])
    vtable(m)
    m.store(st, args[0], Ptr('FSVT', (), icst(64)), PTR)
    wr(m, st, R, FAIL, m.sym('openfail!' + path, 'bool', st.ctx))
    wr(m, st, R, POS, icst(0))
    if not getattr(m, 'one_file', None):
        s = m.sym('filesize!' + path, 'int', st.ctx)
        m.fact_on(s, st.ctx, s >= 0)
        wr(m, st, R, SIZE, s)
    return st, None


def vtable(m):
    if 'FSVT' not in m.regions:
        # address point at 64: complete and deleting destructor
        m.region(Region('FSVT', None, check=False, fields={64: Ptr('@fstream destructor', (), icst(0)), 72: Ptr('@fstream deleting destructor', (), icst(0))}))
        m.read_only.add('FSVT')


@h(r'^fstream (deleting )?destructor')
def dtor(m, dem, args, I, st, path):
    if 'deleting' not in dem: return st, None
    for c, q in m.resolve_alts(st, args[0]): m.obligation('delete gives back a whole stream once', 'bounds', st, mk_imp(c, mk_and(ieq(q.off, icst(0)), m.not_freed(st, q))))
    return st, None


def object(m, name):
    """region of a stream object of the caller"""
    vtable(m)
    m.region(Region(name, None, fields={0: Ptr('FSVT', (), icst(64)), 16: Ptr('FSVT', (), icst(128))}))
    return Ptr(name, (), icst(0))


def install(m):
    m.contracts += TABLE
