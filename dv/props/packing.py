"""C01-C03: dyscostman::BytePacker."""
from lib import *

RATES = (2, 3, 4, 6, 8, 10, 12, 16)


def driver():
    s = '#include <cstddef>\n#include "@REPO@/bytepacker.h"\nusing dyscostman::BytePacker;\n'
    for b in RATES:
        s += 'extern "C" void vf_pack%d(unsigned char*d,const unsigned*s,size_t n){ BytePacker::pack(%d,d,s,n);}\n' % (b, b)
        s += 'extern "C" void vf_unpack%d(unsigned*d,unsigned char*s,size_t n){ BytePacker::unpack(%d,d,s,n);}\n' % (b, b)
        s += 'extern "C" size_t vf_size%d(size_t n){ return BytePacker::bufferSize(n,%d);}\n' % (b, b)
        s += 'extern "C" void vf_rt%d(unsigned*o,unsigned char*d,const unsigned*s,size_t n){ BytePacker::pack(%d,d,s,n); BytePacker::unpack(%d,o,d,n);}\n' % (b, b, b)
    s += 'extern "C" void vf_packx(unsigned b,unsigned char*d,const unsigned*s,size_t n){ BytePacker::pack(b,d,s,n);}\n'
    s += 'extern "C" void vf_unpackx(unsigned b,unsigned*d,unsigned char*s,size_t n){ BytePacker::unpack(b,d,s,n);}\n'
    return s


def nbytes(n, b):
    return idiv(iadd(imul(icst(b), n), icst(7)), icst(8))


def pack(mod, b, pid):
    p = Proof('pack%d' % b, mod, '@vf_pack%d' % b, 'BytePacker::pack%d' % b, bv=(8, 16, 32))
    n = p.nat('n')
    p.region('src', 4, n)
    p.region('dst', 1, nbytes(n, b))
    p.m.read_only.add('src')
    x = z3.Int('x')
    st = vc.State((), {}, ())
    src = p.m.get_cell(st, ('src', 0), 'bv32')
    # requires: every symbol fits in b bits
    s0 = src.read((x,))
    p.m.add_fact([s0.decl()], (x,), z3.Extract(31, b, s0) == 0)
    p.run([Ptr('dst', (), icst(0)), Ptr('src', (), icst(0)), n])
    q = p.nat('q')
    for c in range(b if pid == 'C03' else 0):
        lo, hi = 8 * c, 8 * c + 8
        goals = []
        byte = p.cell('dst', 0, 'bv8', [iadd(imul(icst(b), q), icst(c))])
        for r in range(8):
            s0_, s1 = max(lo, r * b), min(hi, (r + 1) * b)
            if s0_ >= s1: continue
            sym = src.read((iadd(imul(icst(8), q), icst(r)),))
            goals.append(mk_imp(ilt(iadd(imul(icst(8), q), icst(r)), n),
                                z3.Extract(s1 - 1 - lo, s0_ - lo, byte) == z3.Extract(s1 - 1 - r * b, s0_ - r * b, sym)))
        p.ensures('byte %d*q+%d holds the bits of its symbols, least significant first' % (b, c), mk_and(*goals), hints=[q])
    if pid == 'C02': p.ensures('nothing but the destination is written', T if all(k[0] in ('dst', 'src') or k[0].startswith(('alloca!', '@')) for k in p.state.mem) else F)
    p.cover()
    p.cover(pre=(n >= 9,))
    return p.finish(KINDS[pid])


def unpack(mod, b, pid):
    p = Proof('unpack%d' % b, mod, '@vf_unpack%d' % b, 'BytePacker::unpack%d' % b, bv=(8, 16, 32))
    n = p.nat('n')
    p.region('dst', 4, n)
    p.region('src', 1, nbytes(n, b))
    p.m.read_only.add('src')
    st = vc.State((), {}, ())
    src = p.m.get_cell(st, ('src', 0), 'bv8')
    p.run([Ptr('dst', (), icst(0)), Ptr('src', (), icst(0)), n])
    q = p.nat('q')
    bytes_ = [src.read((iadd(imul(icst(b), q), icst(c)),)) for c in range(b)]
    for r in range(8 if pid == 'C03' else 0):
        i = iadd(imul(icst(8), q), icst(r))
        goals = []
        out = p.cell('dst', 0, 'bv32', [i])
        goals.append(z3.Extract(31, b, out) == 0)
        for c in range(b):
            lo, hi = 8 * c, 8 * c + 8
            s0_, s1 = max(lo, r * b), min(hi, (r + 1) * b)
            if s0_ >= s1: continue
            goals.append(z3.Extract(s1 - 1 - lo, s0_ - lo, bytes_[c]) == z3.Extract(s1 - 1 - r * b, s0_ - r * b, out))
        p.ensures('symbol 8*q+%d is the bits [%d*q*8+%d, +%d) of the stream' % (r, b, r * b, b), mk_imp(ilt(i, n), mk_and(*goals)), hints=[q])
    p.cover()
    p.cover(pre=(n >= 9,))
    return p.finish(KINDS[pid])


def roundtrip(mod, b):
    """unpack(pack(s)) == s, proved over the composition of the two real functions"""
    p = Proof('roundtrip%d' % b, mod, '@vf_rt%d' % b, 'BytePacker::unpack o BytePacker::pack (%d bits)' % b, bv=(8, 16, 32))
    n = p.nat('n')
    p.region('src', 4, n)
    p.region('buf', 1, nbytes(n, b))
    p.region('dst', 4, n)
    x = z3.Int('x')
    src = p.m.get_cell(vc.State((), {}, ()), ('src', 0), 'bv32')
    s0 = src.read((x,))
    p.m.add_fact([s0.decl()], (x,), z3.Extract(31, b, s0) == 0)
    p.run([Ptr('dst', (), icst(0)), Ptr('buf', (), icst(0)), Ptr('src', (), icst(0)), n])
    q = p.nat('q')
    for r in range(8):
        i = iadd(imul(icst(8), q), icst(r))
        p.ensures('symbol 8*q+%d is returned' % r, mk_imp(ilt(i, n), p.cell('dst', 0, 'bv32', [i]) == src.read((i,))), hints=[q])
    p.cover()
    p.cover(pre=(n >= 9,))
    return p.finish(KINDS['C01'])


def size(mod, b):
    p = Proof('bufferSize%d' % b, mod, '@vf_size%d' % b, 'BytePacker::bufferSize')
    n = p.nat('n')
    p.requires(n < 2 ** 56)
    p.run([n])
    p.ensures('equals ceil(n*%d/8)' % b, ieq(p.ret, nbytes(n, b)))
    p.cover()
    return p.finish()


def refuse(mod, which):
    fn = '@vf_%sx' % which
    p = Proof('%s-unsupported' % which, mod, fn, 'BytePacker::%s' % which, bv=(8, 16, 32))
    # the bit count stays a 32-bit vector; the element types are irrelevant here
    n = p.nat('n')
    b = z3.BitVec('b', 32)
    p.region('dst', 1 if which == 'pack' else 4, n, check=False)
    p.region('src', 4 if which == 'pack' else 1, n, check=False)
    bad = mk_and(*[b != z3.BitVecVal(x, 32) for x in RATES])
    p.pc = [bad]
    st, _ = p.run([b, Ptr('dst', (), icst(0)), Ptr('src', (), icst(0)), n], nothrow=False)
    if st is not None:
        p.ensures('an unsupported rate does not return normally', F, st=st)
    else:
        p.res.add('an unsupported rate does not return normally', 'ensures', 'proved')
    p.res.add('an exception is thrown', 'ensures', 'proved' if p.m.throws else 'failed')
    for s, what, path in p.m.throws:
        wr = [k for k, c in s.mem.items() if k[0] in ('dst', 'src') and c is not p.m.initial.get(k)]
        p.res.add('output untouched when throwing', 'ensures', 'proved' if not wr else 'failed')
    return p.finish()


KINDS = {'C01': ('invariant', 'ensures'), 'C02': None, 'C03': ('invariant', 'ensures', 'frame')}


def units(pid):
    """list of (unit name, target, callable(mod))"""
    out = []
    for b in RATES:
        if pid == 'C01':
            out.append(('roundtrip%d' % b, 'BytePacker::unpack o BytePacker::pack', lambda mod, b=b: roundtrip(mod, b)))
            continue
        out.append(('pack%d' % b, 'BytePacker::pack', lambda mod, b=b: pack(mod, b, pid)))
        out.append(('unpack%d' % b, 'BytePacker::unpack', lambda mod, b=b: unpack(mod, b, pid)))
        if pid == 'C02': out.append(('bufferSize%d' % b, 'BytePacker::bufferSize', lambda mod, b=b: size(mod, b)))
    if pid == 'C03':
        for w in ('pack', 'unpack'): out.append(('%s-unsupported' % w, 'BytePacker::' + w, lambda mod, w=w: refuse(mod, w)))
    return out
