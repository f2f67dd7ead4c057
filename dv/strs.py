"""Trusted contracts of std::string / casacore::String, casacore records and message streams.

A string object carries its mathematical value: one integer (the value's code, equal codes = equal strings) in the
ghost cell ('str!'+region, offset).  SLEN and SBYTE give length and bytes of a code.  Literals get fixed codes.
A casacore record is a map from field names (literals) to typed values."""
import re, z3
from ir import Unsupported, PTR, I32
from terms import *
import terms as TM
import vc
from vc import Region, Desc

BS = r'std::(__cxx11::)?basic_string<char, std::char_traits<char>, std::allocator<char> >'
KEEP = [r'^std::(mutex|__mutex_base|condition_variable)::', r'^std::(lock_guard|unique_lock)<std::mutex>::', r'^(\w+ |\w+&? )?' + BS + r'::', r'^(\S+ )?casacore::String::', r'std::operator(\+|==|!=|<<|<|>) ?<', r'casacore::RecordFieldId::', r'casacore::Record(Interface|Desc)?::',
        r'std::(__cxx11::)?basic_(o|i)?stringstream<', r'^(\S+ )?casacore::DataManError::', r'^bool std::operator(==|!=)']
SLEN = z3.Function('SLEN', z3.IntSort(), z3.IntSort())
SBYTE = z3.Function('SBYTE', z3.IntSort(), z3.IntSort(), z3.IntSort())
_lits = {}


def literal(m, text):
    """code of a literal"""
    if text not in _lits: _lits[text] = -1000 - len(_lits)
    c = _lits[text]
    done = m.__dict__.setdefault('lits', set())
    if c not in done:
        done.add(c)
        m.globals.append(SLEN(icst(c)) == len(text))
    return icst(c)


def gstring(m, p):
    """text of a pointer to a literal"""
    if not isinstance(p, Ptr) or not p.reg.startswith('@'): return None
    t = m.mod._gtext.get(p.reg)
    if t is None: return None
    mm = re.search(r'constant \[\d+ x i8\] (c"(?:[^"])*"|zeroinitializer)', t)
    o = const_of(p.off)
    if not mm or o is None: return None
    if mm.group(1) == 'zeroinitializer': return ''
    raw = re.sub(r'\\([0-9A-Fa-f]{2})', lambda x: chr(int(x.group(1), 16)), mm.group(1)[2:-1])
    raw = raw[o:]
    return raw.split('\0')[0]


def code_of_cstr(m, st, p, path):
    """code of a zero terminated character sequence"""
    v = None
    for c, q in reversed(m.resolve_alts(st, p)):
        s = gstring(m, q)
        if s is not None: x = literal(m, s)
        elif q.reg.startswith('sbytes!') and const_of(q.off) == 0: x = q.fam[-1]
        else: raise Unsupported('character sequence %r' % (q,))
        v = x if v is None else iite(c, x, v)
    return v


def skey(m, q):
    if q.reg not in m.regions: raise Unsupported('string in %r' % (q,))
    reg = m.regions[q.reg]
    n = 'str!' + q.reg
    if n not in m.regions:
        r = Region(n, None, arity=reg.arity, check=False)
        r.fields = getattr(reg, 'strfields', {})
        m.region(r)
    (rn, f), idx = m.cell_key(q, 1)
    return (n, f), idx


def get(m, st, p):
    v = None
    for c, q in reversed(m.resolve_alts(st, p)):
        k, idx = skey(m, q)
        x = m.get_cell(st, k, 'int').read(idx)
        v = x if v is None else iite(c, x, v)
    return v


def put(m, st, p, code):
    for c, q in m.resolve_alts(st, p):
        k, idx = skey(m, q)
        if q.reg in m.read_only: m.obligation('write to read-only string in ' + q.reg, 'frame', st, mk_not(c))
        m.write_cell(st, k, 'int', Desc((), c, idx, code))


def fresh(m, st, path):
    return m.sym('str!' + path, 'int', st.ctx)


def slen_fact(m, st, s):
    """lengths are not negative and below 2^56"""
    if not getattr(m, 'slen_done', None):
        m.slen_done = True
        x = z3.Int('sl_')
        m.add_fact([SLEN], (x,), z3.And(SLEN(x) >= 0, SLEN(x) < 2**56))
    return norm(SLEN(s))


TABLE = []


def h(rx):
    def deco(f):
        def g(m, name, args, I, st, path):
            import externs
            externs.USED.add(externs.demangle(name))
            return f(m, externs.demangle(name), args, I, st, path)
        TABLE.append((re.compile(rx), g))
        return f
    return deco


def split_args(dem):
    """argument types of a demangled name"""
    d, depth = 0, 0
    i = len(dem) - 1
    while i >= 0 and dem[i] != ')': i -= 1
    j = i
    while j >= 0:
        if dem[j] == ')': depth += 1
        if dem[j] == '(':
            depth -= 1
            if depth == 0: break
        j -= 1
    out, cur, depth = [], '', 0
    for ch in dem[j + 1:i]:
        if ch in '<(': depth += 1
        if ch in '>)': depth -= 1
        if ch == ',' and depth == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out


def operand(m, st, a, ty, path):
    """code of an argument of type string or char const*"""
    if re.search(r'basic_string|String', ty): return get(m, st, a)
    if 'char const*' in ty or 'char*' in ty: return code_of_cstr(m, st, a, path)
    return fresh(m, st, path + 'o')


CTOR = r'(' + BS + r'::basic_string(<[^(]*>)?|casacore::String::String)\('


@h(r'^' + CTOR)
def ctor(m, dem, args, I, st, path):
    ts = [t for t in split_args(dem) if 'allocator<char> const' not in t or 'basic_string' in t]
    if not ts: put(m, st, args[0], literal(m, ''))
    elif re.search(r'(basic_string|String).*(const&|&&)$', ts[0]) and len(ts) == 1: put(m, st, args[0], get(m, st, args[1]))
    elif re.search(r'(basic_string|String).*const&$', ts[0]) and ts[1:] == ['unsigned long'] * 2 and const_of(args[2]) == 0 and const_of(args[3]) in (-1, 2**64 - 1, 2**63 - 1):
        put(m, st, args[0], get(m, st, args[1]))
    elif ts[0] in ('char const*', 'char*') and len(ts) == 1: put(m, st, args[0], code_of_cstr(m, st, args[1], path))
    elif ts[0] in ('char const*', 'char*') and len(ts) == 2 and ts[1] == 'unsigned long': put(m, st, args[0], from_bytes(m, st, args[1], args[2], path))
    else: put(m, st, args[0], fresh(m, st, path))
    return st, None


def from_bytes(m, st, p, n, path):
    """string of the n bytes at p"""
    s = fresh(m, st, path)
    slen_fact(m, st, s)
    al = m.resolve_alts(st, p)
    if len(al) == 1 and gstring(m, al[0][1]) is None:
        q = al[0][1]
        import externs
        m.obligation('bytes of the string', 'bounds', st, externs.m_range_ok(m, q, n, st))
        i = z3.Int('i!' + path)
        b = m.get_cell(st, (q.reg, 0), 'bv8' if 8 in m.bv else 'int').read(q.fam + (iadd(q.off, i),))
        if 8 in m.bv: b = z3.BV2Int(b)
        m.fact_on(s, st.ctx, mk_imp(ile(icst(0), n), ieq(norm(SLEN(s)), n)), st.pc)
        # byte facts: triggered by SBYTE of this string
        x = z3.Int('sb_')
        bf = m.__dict__.setdefault('sbytefacts', {})
        m.add_fact([SBYTE], (x, i), mk_imp(mk_and(ieq(x, s), ile(icst(0), i), ilt(i, n)), ieq(norm(SBYTE(x, i)), b)))
    return s


@h(r'~basic_string\(|casacore::String::~String|std::allocator<char>::~?allocator|__new_allocator<char>::|~?_Alloc_hider')
def nop(m, dem, args, I, st, path): return st, None


@h(BS + r'::operator=\(|casacore::String::operator=\(|' + BS + r'::assign\(')
def assign(m, dem, args, I, st, path):
    ts = split_args(dem)
    if len(ts) == 2 and ts[1] == 'unsigned long' and 'char' in ts[0]: v = from_bytes(m, st, args[1], args[2], path)
    elif len(ts) != 1: v = fresh(m, st, path)
    else: v = operand(m, st, args[1], ts[0], path)
    put(m, st, args[0], v)
    return st, args[0]


@h(r'std::operator(==|!=) ?<|^bool std::operator(==|!=)')
def equal(m, dem, args, I, st, path):
    ts = split_args(dem)
    if len(args) != 2 or not any('basic_string' in t for t in ts): return NotImplemented
    a, b = operand(m, st, args[0], ts[0], path), operand(m, st, args[1], ts[1], path)
    e = ieq(a, b)
    return st, (mk_not(e) if re.search(r'operator!=', dem) else e)


@h(BS + r'::compare\(')
def compare(m, dem, args, I, st, path):
    ts = split_args(dem)
    if len(ts) != 1: raise Unsupported(dem)
    a, b = get(m, st, args[0]), operand(m, st, args[1], ts[0], path)
    r = m.sym('cmp!' + path, 'int', st.ctx)
    m.fact_on(r, st.ctx, mk_and(r > -2**31, r < 2**31, (r == 0) == ieq(a, b)))
    return st, r


@h(BS + r'::(size|length)\(\)')
def size(m, dem, args, I, st, path): return st, slen_fact(m, st, get(m, st, args[0]))


@h(BS + r'::empty\(\)')
def empty(m, dem, args, I, st, path): return st, ieq(get(m, st, args[0]), literal(m, ''))


@h(BS + r'::(c_str|data)\(\)|casacore::String::chars\(')
def cstr(m, dem, args, I, st, path):
    s = get(m, st, args[0])
    n = 'sbytes!'
    if n not in m.regions:
        slen_fact(m, st, s)
        r = Region(n, 1, lambda f: iadd(norm(SLEN(f)), icst(1)), arity=1)
        if 8 in m.bv: r.fields[0] = lambda f, i: z3.Int2BV(SBYTE(f, i), 8)
        else: r.fields[0] = lambda f, i: norm(SBYTE(f, i))
        r.layout = {0: 'bv8' if 8 in m.bv else 'int'}
        m.region(r)
        m.read_only.add(n)
    return st, Ptr(n, (s,), icst(0))


@h(r'std::operator\+ ?<|^casacore::String casacore::operator\+|^casacore::operator\+')
def concat(m, dem, args, I, st, path):
    put(m, st, args[0], fresh(m, st, path))
    return st, None


@h(BS + r'::(append|operator\+=|push_back|insert|replace|erase|clear|resize|reserve|_M_append)\(|std::__cxx11::to_string|std::to_string')
def change(m, dem, args, I, st, path):
    put(m, st, args[0], literal(m, '') if '::clear(' in dem else get(m, st, args[0]) if '::reserve(' in dem else fresh(m, st, path))
    return st, args[0]


@h(r'^std::(mutex|__mutex_base|condition_variable)::~?(mutex|__mutex_base|condition_variable)\(|^std::mutex::(lock|unlock)\(|^std::(lock_guard|unique_lock)<std::mutex>::')
def mutex(m, dem, args, I, st, path): return st, None


# ---------------------------------------------------------------- message streams
@h(r'std::(__cxx11::)?basic_(o|i)?stringstream<.*>::~?basic_(o|i)?stringstream\(|std::basic_ios<.*>::init|std::ios_base::')
def ss(m, dem, args, I, st, path): return st, None


@h(r'std::(__cxx11::)?basic_(o|i)?stringstream<.*>::str\(\) const')
def ss_str(m, dem, args, I, st, path):
    put(m, st, args[0], fresh(m, st, path))
    return st, None


@h(r'std::operator<< ?<|std::basic_ostream<.*>::operator<<\(|std::__ostream_insert|std::basic_ostream<.*>::(_M_insert|put|flush)|std::endl')
def ss_out(m, dem, args, I, st, path): return st, args[0]


# ---------------------------------------------------------------- casacore
@h(r'casacore::(DataManager|DataManError|AipsError|TableError|StManColumn|DataManagerColumn)::~?(DataManager|DataManError|AipsError|TableError|StManColumn|DataManagerColumn)\(')
def cc(m, dem, args, I, st, path): return st, None


@h(r'casacore::RecordFieldId::RecordFieldId\(')
def rfid(m, dem, args, I, st, path):
    ts = split_args(dem)
    if len(ts) == 1 and ts[0] in ('int',): raise Unsupported('record field by number')
    if len(ts) == 1 and 'RecordFieldId' in ts[0]: put(m, st, args[0], get(m, st, args[1]))
    else: put(m, st, args[0], operand(m, st, args[1], ts[0], path))
    return st, None


@h(r'casacore::RecordFieldId::~RecordFieldId|casacore::Record::~Record|casacore::RecordInterface::~RecordInterface')
def rnop(m, dem, args, I, st, path): return st, None


TYPES = {'int': 1, 'unsigned int': 2, 'short': 3, 'long long': 4, 'float': 5, 'double': 6, 'casacore::String const&': 7, 'bool': 8, 'char const*': 7}
KINDS = {'rect': 'int', 'reci': 'int', 'recf': 'fp', 'recs': 'int', 'recd': 'bool'}


def rec_obj(m, st, p):
    al = m.resolve_alts(st, p)
    if len(al) != 1: raise Unsupported('choice of records')
    q = al[0][1]
    if q.reg.startswith('recdesc!'): q = Ptr(q.reg[8:], q.fam, q.off)
    if q.reg not in m.regions or const_of(q.off) is None: raise Unsupported('record %r' % (q,))
    return q


def rcell(m, what, q, field):
    """ghost cell of one field of a record object"""
    n = '%s!%s+%d' % (what, q.reg, const_of(q.off))
    if n not in m.regions:
        r = Region(n, None, arity=m.regions[q.reg].arity, check=False)
        m.region(r)
    f = const_of(field)
    if f is None: raise Unsupported('record field with a computed name')
    return (n, -f * 8), q.fam + (icst(0),)


def rget(m, st, what, q, field):
    k, idx = rcell(m, what, q, field)
    return m.get_cell(st, k, KINDS[what]).read(idx)


def rput(m, st, what, q, field, v):
    k, idx = rcell(m, what, q, field)
    m.write_cell(st, k, KINDS[what], Desc((), T, idx, v))


def rec_cells(m, st, q):
    pre = tuple('%s!%s+%d' % (w, q.reg, const_of(q.off)) for w in KINDS)
    return [k for k in set(list(st.mem) + list(m.initial)) if k[0] in pre]


@h(r'casacore::Record::Record\(')
def rec_ctor(m, dem, args, I, st, path):
    ts = split_args(dem)
    q = rec_obj(m, st, args[0])
    if ts and 'Record const&' in ts[0]: return rec_copy(m, st, q, rec_obj(m, st, args[1]))
    if ts and 'RecordDesc' in ts[0]: raise Unsupported('record from a description')
    # empty record: no field is defined
    rec_clear(m, st, q)
    return st, None


def rec_clear(m, st, q):
    n = 'recd!%s+%d' % (q.reg, const_of(q.off))
    for k in rec_cells(m, st, q):
        if k[0] == n: m.write_cell(st, k, 'bool', Desc((), T, q.fam + (icst(0),), F))
    if n not in m.regions:
        m.region(Region(n, None, arity=m.regions[q.reg].arity, check=False, init='zero'))
    else: m.regions[n].init = 'zero'


def rec_copy(m, st, d, s):
    rec_clear(m, st, d)
    for w in KINDS:
        n = '%s!%s+%d' % (w, s.reg, const_of(s.off))
        for k in sorted(set(k for k in list(st.mem) + list(m.initial) if k[0] == n)):
            rput(m, st, w, d, icst(-(k[1] // 8)), rget(m, st, w, s, icst(-(k[1] // 8))))
    if not m.regions.get('recd!%s+%d' % (s.reg, const_of(s.off))) or m.regions['recd!%s+%d' % (s.reg, const_of(s.off))].init != 'zero':
        raise Unsupported('copy of an unknown record')
    return st, None


@h(r'casacore::Record::operator=\(')
def rec_assign(m, dem, args, I, st, path):
    rec_copy(m, st, rec_obj(m, st, args[0]), rec_obj(m, st, args[1]))
    return st, args[0]


@h(r'casacore::Record(Interface)?::define\(')
def rec_define(m, dem, args, I, st, path):
    ts = split_args(dem)
    q = rec_obj(m, st, args[0])
    f = get(m, st, args[1])
    t = TYPES.get(ts[1])
    if t is None: raise Unsupported('record value of type ' + ts[1])
    rput(m, st, 'recd', q, f, T)
    rput(m, st, 'rect', q, f, icst(t))
    v = args[2]
    if t == 7: rput(m, st, 'recs', q, f, operand(m, st, v, ts[1], path))
    elif t in (5, 6): rput(m, st, 'recf', q, f, v)
    elif t == 8: rput(m, st, 'reci', q, f, iite(v, icst(1), icst(0)))
    else: rput(m, st, 'reci', q, f, v)
    return st, None


def need(m, st, c, what, path):
    """the call throws unless c"""
    if not is_t(c):
        bad = st.copy().assume(mk_not(c))
        if not bad.dead(): m.throws.append((bad, what, path))
        st = st.assume(c)
    return st


@h(r'casacore::RecordInterface::(asInt|asuInt|asDouble|asString|asBool|asFloat|asInt64)\(')
def rec_as(m, dem, args, I, st, path):
    q = rec_obj(m, st, args[0])
    f = get(m, st, args[1])
    t = rget(m, st, 'rect', q, f)
    what = re.search(r'::(as\w+)\(', dem).group(1)
    ints = mk_or(*[ieq(t, icst(k)) for k in (1, 2, 3, 4)])
    fps = mk_or(ieq(t, icst(5)), ieq(t, icst(6)))
    ok = {'asInt': ints, 'asuInt': ints, 'asInt64': ints, 'asDouble': mk_or(ints, fps), 'asFloat': mk_or(ints, fps), 'asString': ieq(t, icst(7)), 'asBool': ieq(t, icst(8))}[what]
    st = need(m, st, mk_and(rget(m, st, 'recd', q, f), ok), 'casacore: record field of another type or not defined (%s)' % what, path)
    if st.dead(): return None, None
    if what == 'asString':
        n = 'recstr!%s+%d!%d' % (q.reg, const_of(q.off), -const_of(f))
        if n not in m.regions: m.region(Region(n, None, arity=m.regions[q.reg].arity, check=False))
        p = Ptr(n, q.fam, icst(0))
        put(m, st, p, rget(m, st, 'recs', q, f))
        return st, p
    if what in ('asDouble', 'asFloat'):
        i = rget(m, st, 'reci', q, f)
        isf = fps
        v = rget(m, st, 'recf', q, f)
        if what == 'asFloat': v = m.sym('asFloat!' + path, 'fp', st.ctx)   # the double is rounded
        if is_t(isf): return st, v
        return st, fite(isf, v, FV(F, F, z3.ToReal(i)))
    if what == 'asBool': return st, mk_not(ieq(rget(m, st, 'reci', q, f), icst(0)))
    i = rget(m, st, 'reci', q, f)
    return st, i


@h(r'casacore::Record(Interface)?::description\(\)')
def rec_desc(m, dem, args, I, st, path):
    q = rec_obj(m, st, args[0])
    n = 'recdesc!' + q.reg
    if n not in m.regions: m.region(Region(n, None, arity=m.regions[q.reg].arity, check=False))
    return st, Ptr(n, q.fam, q.off)


@h(r'casacore::Record(Interface|Desc)?::(fieldNumber|isDefined)\(')
def rec_field(m, dem, args, I, st, path):
    q = rec_obj(m, st, args[0])
    ts = split_args(dem)
    f = operand(m, st, args[1], ts[0], path)
    d = rget(m, st, 'recd', q, f)
    if 'isDefined' in dem: return st, d
    r = m.sym('field!' + path, 'int', st.ctx)
    m.fact_on(r, st.ctx, mk_and(r >= -1, r < 2**31, (r >= 0) == d))
    return st, r


@h(r'casacore::DataManager::(fileName|keywordName|dataManagerName)\(\) const')
def file_name(m, dem, args, I, st, path):
    put(m, st, args[0], fresh(m, st, path))
    return st, None


def install(m):
    m.contracts += TABLE
