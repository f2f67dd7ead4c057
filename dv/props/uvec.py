"""C19: UVector<Tp>, every operation against the sequence model (size, elements) and the representation invariant."""
from lib import *
_flt, _feq = flt, feq


def flt(a, b): return mk_and(mk_not(a.nan), mk_not(b.nan), _flt(a, b))


def feq(a, b): return mk_and(mk_not(a.nan), mk_not(b.nan), _feq(a, b))

FLAGS = ['-fno-access-control']
KEEP = []
LIM = icst(2 ** 50)

# name -> (C++ parameters after the container, body); T is the element type, V the container
OPS = {
    'size': ('', 'return u->size();', 'size_t'),
    'capacity': ('', 'return u->capacity();', 'size_t'),
    'empty': ('', 'return u->empty();', 'bool'),
    'begin': ('', 'return u->begin();', 'T*'), 'cbegin': ('', 'return u->cbegin();', 'const T*'), 'beginc': ('', 'return ((const V*)u)->begin();', 'const T*'),
    'end': ('', 'return u->end();', 'T*'), 'cend': ('', 'return u->cend();', 'const T*'), 'endc': ('', 'return ((const V*)u)->end();', 'const T*'),
    'rbegin': ('', 'return &*u->rbegin();', 'T*'), 'crbegin': ('', 'return &*u->crbegin();', 'const T*'), 'rbeginc': ('', 'return &*((const V*)u)->rbegin();', 'const T*'),
    'rend': ('', 'return u->rend().base();', 'T*'), 'crend': ('', 'return u->crend().base();', 'const T*'), 'rendc': ('', 'return ((const V*)u)->rend().base();', 'const T*'),
    'data': ('', 'return u->data();', 'T*'), 'datac': ('', 'return ((const V*)u)->data();', 'const T*'),
    'front': ('', 'return &u->front();', 'T*'), 'frontc': ('', 'return &((const V*)u)->front();', 'const T*'),
    'back': ('', 'return &u->back();', 'T*'), 'backc': ('', 'return &((const V*)u)->back();', 'const T*'),
    'index': (', size_t k', 'return &(*u)[k];', 'T*'), 'indexc': (', size_t k', 'return &(*(const V*)u)[k];', 'const T*'),
    'at': (', size_t k', 'return &u->at(k);', 'T*'), 'atc': (', size_t k', 'return &((const V*)u)->at(k);', 'const T*'),
    'resize': (', size_t k', 'u->resize(k);', 'void'),
    'resizev': (', size_t k, const T* v', 'u->resize(k, *v);', 'void'),
    'reserve': (', size_t k', 'u->reserve(k);', 'void'),
    'shrink': ('', 'u->shrink_to_fit();', 'void'),
    'clear': ('', 'u->clear();', 'void'),
    'pop_back': ('', 'u->pop_back();', 'void'),
    'push_back': (', const T* v', 'u->push_back(*v);', 'void'),
    'push_back_m': (', T* v', 'u->push_back(std::move(*v));', 'void'),
    'emplace_back': (', const T* v', 'return &u->emplace_back(*v);', 'T*'),
    'push_back_r': (', const T* f, const T* l', 'u->push_back(f, l);', 'void'),
    'push_back_n': (', size_t c, const T* v', 'u->push_back(c, *v);', 'void'),
    'push_back_il': (', const T* f, size_t c', 'u->push_back(std::initializer_list<T>(f, c));', 'void'),
    'push_back_u': (', size_t c', 'u->push_back_uninitialized(c);', 'void'),
    'insert': (', size_t k, const T* v', 'return u->insert(u->cbegin() + k, *v);', 'T*'),
    'insert_m': (', size_t k, T* v', 'return u->insert(u->cbegin() + k, std::move(*v));', 'T*'),
    'emplace': (', size_t k, const T* v', 'return u->emplace(u->cbegin() + k, *v);', 'T*'),
    'insert_n': (', size_t k, size_t c, const T* v', 'return u->insert(u->cbegin() + k, c, *v);', 'T*'),
    'insert_r': (', size_t k, const T* f, const T* l', 'return u->insert(u->cbegin() + k, f, l);', 'T*'),
    'insert_il': (', size_t k, const T* f, size_t c', 'return u->insert(u->cbegin() + k, std::initializer_list<T>(f, c));', 'T*'),
    'insert_u': (', size_t k, size_t c', 'return u->insert_uninitialized(u->cbegin() + k, c);', 'T*'),
    'erase': (', size_t k', 'return u->erase(u->cbegin() + k);', 'T*'),
    'erase_r': (', size_t k, size_t e', 'return u->erase(u->cbegin() + k, u->cbegin() + e);', 'T*'),
    'assign_n': (', size_t c, const T* v', 'u->assign(c, *v);', 'void'),
    'assign_r': (', const T* f, const T* l', 'u->assign(f, l);', 'void'),
    'assign_il': (', const T* f, size_t c', 'u->assign(std::initializer_list<T>(f, c));', 'void'),
    'ctor': ('', 'new (u) V();', 'void'),
    'ctor_n': (', size_t c', 'new (u) V(c);', 'void'),
    'ctor_nv': (', size_t c, const T* v', 'new (u) V(c, *v);', 'void'),
    'ctor_r': (', const T* f, const T* l', 'new (u) V(f, l);', 'void'),
    'ctor_il': (', const T* f, size_t c', 'new (u) V(std::initializer_list<T>(f, c));', 'void'),
    'dtor': ('', 'u->~V();', 'void'),
    'copy': (', const V* o', 'new (u) V(*o);', 'void'),
    'copy_a': (', const V* o', 'new (u) V(*o, std::allocator<T>());', 'void'),
    'move': (', V* o', 'new (u) V(std::move(*o));', 'void'),
    'move_a': (', V* o', 'new (u) V(std::move(*o), std::allocator<T>());', 'void'),
    'assign_copy': (', const V* o', '*u = *o;', 'void'),
    'assign_move': (', V* o', '*u = std::move(*o);', 'void'),
    'assign_move_f': (', V* o', 'u->assign_move_from(std::move(*o), std::false_type());', 'void'),
    'swap': (', V* o', 'u->swap(*o);', 'void'),
    'swap_f': (', V* o', 'swap(*u, *o);', 'void'),
    'swap_p': (', V* o', 'u->swap(*o, std::true_type());', 'void'),
    'eq': (', const V* o', 'return *u == *o;', 'bool'), 'ne': (', const V* o', 'return *u != *o;', 'bool'),
    'lt': (', const V* o', 'return *u < *o;', 'bool'), 'le': (', const V* o', 'return *u <= *o;', 'bool'),
    'gt': (', const V* o', 'return *u > *o;', 'bool'), 'ge': (', const V* o', 'return *u >= *o;', 'bool'),
}
# calls with two integral arguments, which the overloads for iterators catch first
OPS_I = {
    'ictor': (', T c, T v', 'new (u) V(c, v);', 'void'),
    'iassign': (', T c, T v', 'u->assign(c, v);', 'void'),
    'iinsert': (', size_t k, T c, T v', 'return u->insert(u->cbegin() + k, c, v);', 'T*'),
    'ipush': (', T c, T v', 'u->push_back(c, v);', 'void'),
}


def driver():
    out = '#include <new>\n#include <cstddef>\n#include <initializer_list>\n#include "@REPO@/uvector.h"\n'
    out += 'using aocommon::UVector;\n'
    for k, t, ops in (('f', 'float', OPS), ('u', 'unsigned', OPS_I)):
        out += 'namespace ns_%s { using T = %s; using V = UVector<T>;\n' % (k, t)
        for i, m in enumerate(('_begin', '_end', '_endOfStorage')):
            out += 'extern "C" size_t vf_off%d_%s() { return __builtin_offsetof(V, %s); }\n' % (i, k, m)
        for n, (params, body, ret) in ops.items():
            out += 'extern "C" %s vf_%s_%s(V* u%s) { %s }\n' % (ret, n, k, params, body)
        out += '}\n'
    return out


class Seq:
    """a UVector in an arbitrary valid state"""

    def __init__(s, p, mod, k, name, buf, null, raw=False):
        from quant import const_ret
        s.p, s.kind, s.name, s.buf = p, 'fp' if k == 'f' else 'int', name, buf
        s.o = [const_ret(mod, '@vf_off%d_%s' % (i, k)) for i in range(3)]
        m = p.m
        m.new_elem = 4
        m.reach_hints = True
        if raw:
            p.region(name, None)
            s.n = s.cap = icst(0)
        elif null:
            s.n = s.cap = icst(0)
            p.region(name, None, fields={o: NULL for o in s.o})
        else:
            s.n, s.cap, L = p.nat(name + 'n'), p.nat(name + 'cap'), p.nat(name + 'len')
            p.requires(ile(s.n, s.cap)); p.requires(ile(s.cap, L)); p.requires(ilt(L, LIM))
            p.region(name, None, fields={o: Ptr(buf, (), imul(icst(4), x)) for o, x in zip(s.o, (icst(0), s.n, s.cap))})
            r = p.region(buf, 4, L)
            r.layout = {0: s.kind}
        s.null = null or raw
        s.this = Ptr(name, (), icst(0))
        s.s0 = vc.State((), {}, ())

    def field(s, st, i): return s.p.m.get_cell(st, (s.name, s.o[i]), 'ptr').read((icst(0),))

    def old(s, i):
        """element i before the operation"""
        if s.null: return s.p.m.sym('none!' + s.name, s.kind, ())
        return s.elem_of(s.buf, s.s0, i)

    def elem_of(s, reg, st, i):
        return s.p.m.get_cell(st, (reg, 0), s.kind).read((i,))

    def size4(s, st): return s.p.m.pdiff(s.field(st, 1), s.field(st, 0))

    def same(s, a, b): return same_fv(a, b) if s.kind == 'fp' else ieq(a, b)

    def valid(s, st, what='', pre=()):
        """representation invariant: capacity >= size, storage exists, belongs to the container and is not given back"""
        m, p = s.p.m, s.p
        b, e, c = (s.field(st, i) for i in range(3))
        sz, cp = m.pdiff(e, b), m.pdiff(c, b)
        p.ensures(what + 'capacity is at least the size', mk_and(ile(icst(0), sz), ile(sz, cp)), pre=pre)
        g = []
        for cond, q in alts(b):
            if q.reg == 'NULL': g.append(mk_imp(cond, ieq(cp, icst(0)))); continue
            L = m.rlen(st, m.regions[q.reg], q.fam)
            one = mk_or(*[mk_and(c2, T if q2.reg == q.reg else F) for c2, q2 in alts(e)])
            g.append(mk_imp(cond, mk_and(ieq(q.off, icst(0)), ile(cp, imul(icst(4), L)) if m.regions[q.reg].elem == 4 else F, m.not_freed(st, q), one)))
        p.ensures(what + 'the storage of the capacity exists and is not released', mk_and(*g), pre=pre)

    def content(s, st, n, exp, what='', guard=None, pre=()):
        """the container holds n elements, element i equals exp(i) (where guard(i))"""
        m, p = s.p.m, s.p
        p.ensures(what + 'size', ieq(s.size4(st), imul(icst(4), n)), pre=pre)
        if exp is None: return
        i = p.nat('i')
        for cond, q in alts(s.field(st, 0)):
            if q.reg == 'NULL': continue
            x = s.elem_of(q.reg, st, i)
            w = exp(i)
            p.ensures(what + 'elements', mk_imp(mk_and(cond, ilt(i, n), guard(i) if guard else T), s.same(x, w)), hints=[i], pre=pre)

    def iter_at(s, st, ret, k):
        """the returned iterator points at element k"""
        s.p.ensures('returned position', ieq(s.p.m.pdiff(ret, s.field(st, 0)), imul(icst(4), k)))


def sel(*cs):
    """nested choice of element values: (cond, value)..., default last"""
    v = cs[-1]
    for c, x in reversed(cs[:-1]): v = vite(c, x, v)
    return v


def one(mod, res, op, null=False, alias=False):
    k = 'f'
    p = Proof('x', mod, '@vf_%s_%s' % (op, k), 'UVector<float>')
    raw = op.startswith('ctor') or op in ('copy', 'copy_a', 'move', 'move_a')
    u = Seq(p, mod, k, 'U', 'buf', null is True, raw)
    m = p.m
    tag = op + (' (no storage)' if null is True and not raw else ' (source without storage)' if null == 'o' else '') + (' (argument is an element)' if alias else '')
    params = OPS[op][0]
    args = [u.this]
    K = C = None
    n = u.n
    nothrow = True
    o = None
    if 'size_t k' in params:
        K = p.nat('k'); p.requires(ilt(K, LIM)); args.append(K)
    if 'size_t e' in params:
        E = p.nat('e'); args.append(E)
    src = lambda i: u.elem_of('src', u.s0, i)
    if 'T* f' in params:
        C = p.nat('c'); p.requires(ilt(C, LIM))
        r = p.region('src', 4, C); r.layout = {0: 'fp'}; m.read_only.add('src')
        args += [Ptr('src', (), icst(0)), Ptr('src', (), imul(icst(4), C)) if 'T* l' in params else C]
    elif 'size_t c' in params:
        C = p.nat('c'); p.requires(ilt(C, LIM)); args.append(C)
    val = None
    if 'T* v' in params:
        if alias:
            A = p.nat('a'); p.requires(ilt(A, n))
            args.append(Ptr('buf', (), imul(icst(4), A))); val = u.old(A)
        else:
            r = p.region('arg', 4, icst(1)); r.layout = {0: 'fp'}
            args.append(Ptr('arg', (), icst(0))); val = u.elem_of('arg', u.s0, icst(0))
    if 'V* o' in params:
        o = Seq(p, mod, k, 'O', 'obuf', null == 'o', False)
        args.append(o.this)
    old = u.old
    if op in ('insert', 'insert_m', 'emplace', 'insert_n', 'insert_r', 'insert_il', 'insert_u'): p.requires(ile(K, n))
    if op in ('index', 'indexc', 'erase'): p.requires(ilt(K, n))
    if op == 'erase_r': p.requires(ile(K, E)); p.requires(ile(E, n))
    if op in ('front', 'frontc', 'back', 'backc', 'pop_back', 'rbegin', 'rbeginc', 'crbegin'): p.requires(ilt(icst(0), n))
    if op in ('at', 'atc'): nothrow = False
    if op in ('eq', 'ne'):
        EQ = z3.Bool('EQ'); i_ = z3.Int('i_')
        x, y = u.old(i_), o.old(i_)
        if not (u.null or o.null):
            m.add_fact([x.nan.decl(), y.nan.decl()], (i_,), mk_imp(mk_and(EQ, ile(icst(0), i_), ilt(i_, n)), feq(x, y)))
    if op in ('lt', 'le', 'gt', 'ge'):
        D = p.nat('D'); i_ = z3.Int('i_')
        mn = iite(ilt(n, o.n), n, o.n)
        p.requires(ile(D, mn))
        if not (u.null or o.null):
            x, y = u.old(i_), o.old(i_)
            p.requires(mk_imp(ilt(D, mn), mk_or(flt(u.old(D), o.old(D)), flt(o.old(D), u.old(D)))))
            m.add_fact([x.nan.decl(), y.nan.decl()], (i_,), mk_imp(mk_and(ile(icst(0), i_), ilt(i_, D)), mk_and(mk_not(flt(x, y)), mk_not(flt(y, x)))))
    p.run(args, nothrow=nothrow)
    st, ret = p.state, p.ret
    Z = icst(0)
    const = 'T*' in OPS[op][2] and op not in ('emplace_back', 'insert', 'insert_m', 'emplace', 'insert_n', 'insert_r', 'insert_il', 'insert_u', 'erase', 'erase_r') or OPS[op][2] in ('bool', 'size_t')
    if nothrow is False:
        for s_, what, path in m.throws:
            r, mdl = m.prove(s_.pc, mk_not(ilt(K, n)))
            p.res.add('at() refuses only positions past the end', 'ensures', r, note=short(mdl))
        if st is not None: p.ensures('at() refuses positions past the end', ilt(K, n))
    if const and st is not None:
        e4 = lambda x: imul(icst(4), x)
        want = None
        if op == 'size': p.ensures('size()', ieq(ret, n))
        elif op == 'capacity': p.ensures('capacity()', ieq(ret, u.cap))
        elif op == 'empty': p.ensures('empty() exactly without elements', ret == ieq(n, Z))
        elif op in ('eq', 'ne'):
            r = ret if op == 'eq' else mk_not(ret)
            if u.null or o.null: p.ensures('comparison', r == ieq(n, o.n))
            else:
                i = p.nat('i')
                p.ensures('equal containers have equal sizes and elements', mk_imp(r, mk_and(ieq(n, o.n), mk_imp(ilt(i, n), feq(u.old(i), o.old(i))))), hints=[i])
                p.ensures('containers with equal sizes and elements are equal', mk_imp(mk_and(ieq(n, o.n), EQ), r), hints=[isub(n, icst(1))])
        elif op in ('lt', 'le', 'gt', 'ge'):
            if u.null or o.null:
                w = {'lt': ilt(n, o.n), 'le': ile(n, o.n), 'gt': ilt(o.n, n), 'ge': ile(o.n, n)}[op]
            else:
                a, b = u.old(D), o.old(D)
                dif = flt(a, b) if op in ('lt', 'le') else flt(b, a)
                tie = {'lt': ilt(n, o.n), 'le': ile(n, o.n), 'gt': ilt(o.n, n), 'ge': ile(o.n, n)}[op]
                w = mk_or(mk_and(ilt(D, mn), dif), mk_and(ieq(D, mn), tie))
            p.ensures('lexicographical comparison', ret == w, hints=[] if u.null or o.null else [D])
        else:
            if op in ('begin', 'beginc', 'cbegin', 'data', 'datac', 'rend', 'rendc', 'crend', 'front', 'frontc'): want = Z
            elif op in ('end', 'endc', 'cend'): want = n
            elif op in ('back', 'backc', 'rbegin', 'rbeginc', 'crbegin'): want = isub(n, icst(1))
            else: want = K
            if u.null: p.ensures('position', T if isinstance(ret, Ptr) and ret.reg == 'NULL' else F)
            else: p.ensures('position of the element', mk_and(*[mk_imp(c, mk_and(T if q.reg == 'buf' else F, ieq(q.off, e4(want)))) for c, q in alts(ret)]))
        u.content(st, n, None if u.null else old, 'unchanged: ')
        u.valid(st)
    elif op == 'dtor':
        if not u.null: p.ensures('the storage is given back', mk_not(m.not_freed(st, Ptr('buf', (), Z))))
        p.cover()
        return merge(res, p, tag)
    else:
        exp, N, guard = None, None, None
        c1 = icst(1)
        if op == 'resize': N, exp, guard = K, old, lambda i: ilt(i, n)
        elif op == 'resizev': N, exp = K, lambda i: sel((ilt(i, n), old(i)), val)
        elif op in ('reserve', 'shrink'): N, exp = n, old
        elif op == 'clear': N = Z
        elif op == 'pop_back': N, exp = isub(n, c1), old
        elif op in ('push_back', 'push_back_m', 'emplace_back'): N, exp = iadd(n, c1), lambda i: sel((ilt(i, n), old(i)), val)
        elif op in ('push_back_r', 'push_back_il'): N, exp = iadd(n, C), lambda i: sel((ilt(i, n), old(i)), src(isub(i, n)))
        elif op == 'push_back_n': N, exp = iadd(n, C), lambda i: sel((ilt(i, n), old(i)), val)
        elif op == 'push_back_u': N, exp, guard = iadd(n, C), old, lambda i: ilt(i, n)
        elif op in ('insert', 'insert_m', 'emplace'): N, exp = iadd(n, c1), lambda i: sel((ilt(i, K), old(i)), (ieq(i, K), val), old(isub(i, c1)))
        elif op in ('insert_n', 'insert_r', 'insert_il', 'insert_u'):
            new = (lambda i: val) if op == 'insert_n' else (lambda i: src(isub(i, K)))
            N = iadd(n, C)
            exp = lambda i: sel((ilt(i, K), old(i)), (ilt(i, iadd(K, C)), new(i) if op != 'insert_u' else old(i)), old(isub(i, C)))
            if op == 'insert_u': guard = lambda i: mk_or(ilt(i, K), ile(iadd(K, C), i))
        elif op == 'erase': N, exp = isub(n, c1), lambda i: sel((ilt(i, K), old(i)), old(iadd(i, c1)))
        elif op == 'erase_r': N, exp = isub(n, isub(E, K)), lambda i: sel((ilt(i, K), old(i)), old(iadd(i, isub(E, K))))
        elif op in ('assign_n', 'ctor_nv'): N, exp = C, lambda i: val
        elif op in ('assign_r', 'assign_il', 'ctor_r', 'ctor_il'): N, exp = C, src
        elif op == 'ctor': N = Z
        elif op == 'ctor_n': N = C
        elif o is not None:
            N, exp = o.n, o.old
        u.content(st, N, exp, guard=guard)
        u.valid(st)
        if 'T*' in OPS[op][2]: u.iter_at(st, ret, n if op == 'emplace_back' else K)
        if op == 'reserve': p.ensures('capacity of at least the request', ile(imul(icst(4), K), m.pdiff(u.field(st, 2), u.field(st, 0))))
        if o is not None:
            if 'const V* o' in params: o.content(st, o.n, None if o.null else o.old, 'source: ')
            elif op in ('swap', 'swap_f', 'swap_p'): o.content(st, n, None if u.null else old, 'other: ')
            else: o.content(st, Z, None, 'source is empty: ') if op != 'assign_move_c' else None
            o.valid(st, 'other: ')
            b1, b2 = u.field(st, 0), o.field(st, 0)
            p.ensures('the two containers do not share storage', mk_and(*[mk_imp(mk_and(c, d), F) for c, q in alts(b1) for d, q2 in alts(b2) if q.reg == q2.reg and q.reg != 'NULL'] or [T]))
    p.cover()
    merge(res, p, tag)


def merge(res, p, tag):
    r = p.finish()
    for x in r.obl: x['name'] = tag + ': ' + x['name']
    res.obl += r.obl; res.functions |= r.functions; res.trusted |= r.trusted; res.assumptions |= r.assumptions
    for a, b in r.stats.items(): res.stats[a] = res.stats.get(a, 0) + b


def integral(mod, res, op, null):
    p = Proof('x', mod, '@vf_%s_u' % op, 'UVector<unsigned>')
    raw = op == 'ictor'
    u = Seq(p, mod, 'u', 'U', 'buf', null, raw)
    m = p.m
    args = [u.this]
    K = None
    if 'size_t k' in OPS_I[op][0]:
        K = p.nat('k'); p.requires(ile(K, u.n)); args.append(K)
    C, v = p.nat('c'), p.nat('v')
    for x in (C, v): p.requires(ilt(x, icst(2 ** 32)))
    p.run(args + [C, v])
    st, n = p.state, u.n
    if op in ('ictor', 'iassign'): N, exp = C, lambda i: v
    elif op == 'ipush': N, exp = iadd(n, C), lambda i: sel((ilt(i, n), u.old(i)), v)
    else: N, exp = iadd(n, C), lambda i: sel((ilt(i, K), u.old(i)), (ilt(i, iadd(K, C)), v), u.old(isub(i, C)))
    u.content(st, N, exp)
    u.valid(st)
    if K is not None: u.iter_at(st, p.ret, K)
    p.cover()
    merge(res, p, op + (' (no storage)' if null and not raw else ''))


ALIAS = ('resizev', 'push_back', 'emplace_back', 'push_back_n', 'insert', 'emplace', 'insert_n')
NEEDN = ('front', 'frontc', 'back', 'backc', 'pop_back', 'rbegin', 'rbeginc', 'crbegin', 'index', 'indexc', 'erase', 'at', 'atc')
GROUPS = {
    'access': ['size', 'capacity', 'empty', 'begin', 'beginc', 'cbegin', 'end', 'endc', 'cend', 'rbegin', 'rbeginc', 'crbegin', 'rend', 'rendc', 'crend', 'data', 'datac', 'front', 'frontc', 'back', 'backc', 'index', 'indexc', 'at', 'atc'],
    'compare': ['eq', 'ne', 'lt', 'le', 'gt', 'ge'],
    'construct': ['ctor', 'ctor_n', 'ctor_nv', 'ctor_r', 'ctor_il', 'dtor', 'copy', 'copy_a', 'move', 'move_a'],
    'assign': ['assign_n', 'assign_r', 'assign_il', 'assign_copy', 'assign_move', 'assign_move_f', 'swap', 'swap_f', 'swap_p'],
    'size': ['resize', 'resizev', 'reserve', 'shrink', 'clear', 'pop_back', 'erase', 'erase_r'],
    'append': ['push_back', 'push_back_m', 'emplace_back', 'push_back_n', 'push_back_u'],
    'append-range': ['push_back_r', 'push_back_il'],
    'insert-one': ['insert', 'insert_m', 'emplace'],
    'insert-n': ['insert_n', 'insert_u'],
    'insert-range': ['insert_r', 'insert_il'],
}


def group(mod, name, ops):
    res = Result(name, 'UVector<float>: ' + ', '.join(ops))
    for op in ops:
        raw = op.startswith('ctor') or op in ('copy', 'copy_a', 'move', 'move_a')
        other = 'V* o' in OPS[op][0]
        one(mod, res, op)
        if not raw and op not in NEEDN: one(mod, res, op, null=True)
        if other: one(mod, res, op, null='o')
        if op in ALIAS: one(mod, res, op, alias=True)
    return res


def ints(mod):
    res = Result('integral-arguments', 'UVector<unsigned>: (count, value) calls taken by the iterator overloads')
    for op in OPS_I:
        one_ = integral(mod, res, op, False)
        if op != 'ictor': integral(mod, res, op, True)
    return res


def units(pid):
    out = [('UVector-' + g, 'UVector<float>: ' + ', '.join(ops), lambda mod, g=g, ops=ops: group(mod, 'UVector-' + g, ops)) for g, ops in GROUPS.items()]
    out.append(('UVector-integral', 'UVector<unsigned> integral overloads', ints))
    return out
