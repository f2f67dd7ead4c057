"""Parser for the textual LLVM IR that clang/opt produce from /repo's sources.

Only what the verifier needs: functions, blocks, instructions with typed
operands, struct layouts, and global names.  Anything unknown raises
Unsupported, which the checks report as "not analysable", never as a violation.
"""
import re, struct


class Unsupported(Exception):
    pass


TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<name>[%@](?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>![-a-zA-Z$._0-9]*)
 | (?P<attr>\#[0-9]+)
 | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<num>-?[0-9]+(?:\.[0-9]+(?:e[+-]?[0-9]+)?)?)
 | (?P<id>[a-zA-Z_$.][-a-zA-Z0-9_$.]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[\[\]{}()<>,=*:|!])
''', re.X)


def tokenize(s):
    out, i = [], 0
    while i < len(s):
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise Unsupported('token at %r' % s[i:i + 40])
        i = m.end()
        k = m.lastgroup
        if k != 'ws':
            out.append(m.group())
    return out


class Ty:
    """kind: int(bits) fp(name) ptr void arr(n,elem) struct(fields,packed) named(name) vec label meta func"""
    __slots__ = ('k', 'a', 'b')

    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b

    def __repr__(self):
        if self.k == 'int': return 'i%d' % self.a
        if self.k == 'fp': return self.a
        if self.k == 'arr': return '[%d x %r]' % (self.a, self.b)
        if self.k == 'struct': return '{%s}' % ', '.join(map(repr, self.a))
        if self.k == 'named': return self.a
        if self.k == 'vec': return '<%d x %r>' % (self.a, self.b)
        return self.k


I1, I8, I32, I64 = (Ty('int', n) for n in (1, 8, 32, 64))
PTR, VOID = Ty('ptr'), Ty('void')
FLOAT, DOUBLE = Ty('fp', 'float'), Ty('fp', 'double')

PARAM_ATTR_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype', 'memory', 'captures', 'range', 'nofpclass', 'allocsize', 'inalloca', 'byref', 'preallocated'}
PARAM_ATTRS = {'noundef', 'nonnull', 'nocapture', 'readonly', 'writeonly', 'readnone', 'noalias', 'signext', 'zeroext',
               'returned', 'inreg', 'immarg', 'nofree', 'nest', 'swiftself', 'allocptr', 'writable', 'dead_on_unwind', 'noext'} | PARAM_ATTR_ARG


class P:
    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod

    def peek(self, o=0):
        return self.t[self.i + o] if self.i + o < len(self.t) else None

    def next(self):
        v = self.t[self.i]
        self.i += 1
        return v

    def eat(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def need(self, s):
        v = self.next()
        if v != s:
            raise Unsupported('expected %s got %s in %s' % (s, v, ' '.join(self.t)))

    def type(self):
        v = self.next()
        if re.fullmatch(r'i[0-9]+', v): t = Ty('int', int(v[1:]))
        elif v in ('float', 'double', 'x86_fp80', 'half', 'fp128'): t = Ty('fp', v)
        elif v == 'ptr':
            t = PTR
        elif v == 'void': t = VOID
        elif v in ('label', 'metadata', 'token'): t = Ty(v)
        elif v == '[':
            n = int(self.next()); self.need('x'); e = self.type(); self.need(']'); t = Ty('arr', n, e)
        elif v == '{':
            fs = []
            if not self.eat('}'):
                while True:
                    fs.append(self.type())
                    if self.eat('}'): break
                    self.need(',')
            t = Ty('struct', fs, False)
        elif v == '<':
            if self.peek() == '{':
                self.next(); fs = []
                if not self.eat('}'):
                    while True:
                        fs.append(self.type())
                        if self.eat('}'): break
                        self.need(',')
                self.need('>')
                t = Ty('struct', fs, True)
            else:
                n = int(self.next()); self.need('x'); e = self.type(); self.need('>'); t = Ty('vec', n, e)
        elif v[0] == '%': t = Ty('named', v)
        else:
            raise Unsupported('type %s in %s' % (v, ' '.join(self.t)[:200]))
        # function type
        if self.peek() == '(' and t.k != 'label':
            # could be a function type "void (ptr, ...)" -- only in call with varargs
            save = self.i
            self.next(); depth = 1
            while depth:
                x = self.next()
                if x == '(': depth += 1
                if x == ')': depth -= 1
            return Ty('func', t)
        return t

    def skip_attrs(self):
        while self.peek() in PARAM_ATTRS:
            v = self.next()
            if v == 'align' and self.peek() != '(':
                self.next()
            elif self.peek() == '(' and v in PARAM_ATTR_ARG:
                depth = 0
                while True:
                    x = self.next()
                    if x == '(': depth += 1
                    if x == ')':
                        depth -= 1
                        if not depth: break

    def value(self, ty):
        v = self.next()
        if v[0] == '%': return ('loc', v)
        if v[0] == '@': return ('glob', v)
        if v in ('true', 'false'): return ('int', int(v == 'true'))
        if v == 'null': return ('null',)
        if v in ('undef', 'poison'): return ('undef',)
        if v == 'zeroinitializer': return ('zero',)
        if v.startswith('0x'): return ('fp', hexfp(v))
        if re.fullmatch(r'-?[0-9]+', v):
            return ('int', int(v))
        if re.match(r'-?[0-9]+\.', v): return ('fp', float(v))
        if v == 'getelementptr':
            while self.peek() in ('inbounds', 'inrange', 'nuw', 'nusw'): self.next()
            self.need('(')
            bt = self.type(); self.need(',')
            ops = []
            while True:
                self.eat('inrange')
                t = self.type(); self.skip_attrs(); ops.append((t, self.value(t)))
                if self.eat(')'): break
                self.need(',')
            return ('cgep', bt, ops)
        if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
            self.need('('); t = self.type(); x = self.value(t); self.need('to'); t2 = self.type(); self.need(')')
            return ('ccast', v, t, x, t2)
        if v in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl'):
            while self.peek() in ('nuw', 'nsw'): self.next()
            self.need('('); t = self.type(); a = self.value(t); self.need(','); t2 = self.type(); b = self.value(t2); self.need(')')
            return ('cbin', v, t, a, b)
        if v in ('[', '{', '<'):
            close = {'[': ']', '{': '}', '<': '>'}[v]
            packed = v == '<' and self.eat('{')
            elems = []
            end = '}' if packed else close
            if self.peek() != end:
                while True:
                    t = self.type(); elems.append((t, self.value(t)))
                    if not self.eat(','): break
            self.need(end)
            if packed: self.need('>')
            return ('agg', elems)
        if v.startswith('c"'): return ('cstr', v)
        if v == 'blockaddress' or v == 'dso_local_equivalent' or v == 'no_cfi':
            raise Unsupported(v)
        if v == 'asm': return ('asm',)
        raise Unsupported('value %s in %s' % (v, ' '.join(self.t)[:200]))

    def tv(self):
        t = self.type()
        self.skip_attrs()
        if t.k == 'metadata':
            # skip metadata operand
            depth = 0
            while self.peek() is not None and not (depth == 0 and self.peek() in (',', ')')):
                x = self.next()
                if x in '([{': depth += 1
                if x in ')]}': depth -= 1
            return t, ('meta',)
        return t, self.value(t)


def hexfp(v):
    if v.startswith('0xK'):
        bits = int(v[3:], 16)
        sign = -1 if bits >> 79 else 1
        exp = (bits >> 64) & 0x7fff
        man = bits & ((1 << 64) - 1)
        if exp == 0x7fff:
            return ('inf' if (man & ((1 << 63) - 1)) == 0 else 'nan', sign)
        from fractions import Fraction
        return ('frac', Fraction(sign * man) * (Fraction(2) ** (exp - 16383 - 63)))
    if v[2] in 'LMHR': raise Unsupported('fp const ' + v)
    d = struct.unpack('>d', bytes.fromhex(v[2:].rjust(16, '0')))[0]
    return d


class Instr:
    __slots__ = ('res', 'op', 'ty', 'a', 'text', 'extra')

    def __init__(self, res, op, text):
        self.res, self.op, self.text = res, op, text
        self.ty = None
        self.a = []
        self.extra = None

    def __repr__(self): return self.text.strip()


class Func:
    def __init__(self, name):
        self.name = name
        self.params = []     # (type, name)
        self.ret = None
        self.blocks = {}     # label -> [Instr]
        self.order = []
        self.attrs = ''


CASTS = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'addrspacecast'}
BINS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
FLAGS = {'nuw', 'nsw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'disjoint', 'nneg'}


class Module:
    def __init__(self, text):
        self.structs = {}
        self.funcs = {}
        self.decls = {}
        self.globals = {}
        self._gtext = {}
        self._layout = {}
        self._ftext = {}
        self.aliases = {}
        self.parse(text)

    def parse(self, text):
        lines = text.split('\n')
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith('%') and ' = type ' in l:
                name, rest = l.split(' = type ', 1)
                self.structs[name.strip()] = rest.strip()
            elif l.startswith('define'):
                j = i
                while not lines[j].startswith('}'): j += 1
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', l)
                self._ftext['@' + m.group(1)] = lines[i:j]
                i = j
            elif l.startswith('declare'):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', l)
                if m: self.decls['@' + m.group(1)] = l
            elif l.startswith('@'):
                m = re.match(r'(@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)) = (.*)$', l)
                if m:
                    self._gtext[m.group(1)] = m.group(2)
                    a = re.search(r' alias .*, ptr (@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))', m.group(2))
                    if a: self.aliases[m.group(1)] = a.group(1)
            i += 1

    def has(self, name):
        return self.aliases.get(name, name) in self._ftext

    def func(self, name):
        name = self.aliases.get(name, name)
        if name not in self.funcs:
            self.funcs[name] = self.parse_func(name, self._ftext[name])
        return self.funcs[name]

    def parse_func(self, name, lines):
        f = Func(name)
        head = lines[0]
        toks = tokenize(head[:head.rindex('{')])
        k = toks.index(name)
        p = P(toks, self)
        # return type: the type right before name; parse backwards is hard -> parse forward skipping attributes
        p.i = 1
        SK = {'dso_local', 'linkonce_odr', 'weak_odr', 'internal', 'private', 'hidden', 'protected', 'available_externally', 'linkonce', 'weak', 'external',
              'unnamed_addr', 'local_unnamed_addr', 'fastcc', 'ccc', 'coldcc', 'noundef', 'nonnull', 'zeroext', 'signext', 'noalias'} | PARAM_ATTRS
        while p.peek() in SK:
            if p.peek() in PARAM_ATTRS: p.skip_attrs()
            else: p.next()
        f.ret = p.type()
        assert p.next() == name, head
        p.need('(')
        cnt = 0
        if not p.eat(')'):
            while True:
                if p.eat('...'):
                    p.need(')'); break
                t = p.type(); p.skip_attrs()
                nm = None
                if p.peek() and p.peek()[0] == '%': nm = p.next()
                else: nm = '%%%d' % cnt
                cnt += 1
                f.params.append((t, nm))
                if p.eat(')'): break
                p.need(',')
        f.attrs = ' '.join(toks[p.i:])
        cur = None
        body = lines[1:]
        i = 0
        # the entry label
        while i < len(body):
            l = body[i]
            s = l.strip()
            if not s or s.startswith(';'):
                i += 1; continue
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', l)
            if m:
                cur = '%' + m.group(1)
                f.blocks[cur] = []; f.order.append(cur)
                i += 1; continue
            if cur is None:
                # unnamed entry block: its number is the count of unnamed params
                n = sum(1 for _, nm in f.params if re.fullmatch(r'%[0-9]+', nm))
                cur = '%%%d' % n
                f.blocks[cur] = []; f.order.append(cur)
            # multi-line: switch, invoke, landingpad
            if re.match(r'switch ', s):
                while ']' not in body[i]:
                    i += 1; s += ' ' + body[i].strip()
            elif ' invoke ' in (' ' + s) and i + 1 < len(body) and body[i + 1].strip().startswith('to label'):
                i += 1; s += ' ' + body[i].strip()
            elif re.match(r'(%\S+ = )?landingpad', s):
                while i + 1 < len(body) and re.match(r'(cleanup|catch|filter)\b', body[i + 1].strip()):
                    i += 1; s += ' ' + body[i].strip()
            f.blocks[cur].append(s)
            i += 1
        for b in f.order:
            f.blocks[b] = [self.parse_instr(s) for s in f.blocks[b]]
        return f

    def parse_instr(self, s):
        # cut trailing metadata
        toks = tokenize(s)
        res = None
        if len(toks) > 2 and toks[1] == '=' and toks[0][0] == '%':
            res = toks[0]; toks = toks[2:]
        op = toks[0]
        p = P(toks, self)
        p.next()
        I = Instr(res, op, s)
        if op in ('tail', 'musttail', 'notail'):
            op = I.op = p.next()
        if op in BINS:
            while p.peek() in FLAGS:
                f = p.next()
                I.extra = (I.extra or set()) | {f}
            I.ty = p.type()
            I.a = [p.value(I.ty)]; p.need(','); I.a.append(p.value(I.ty))
        elif op == 'fneg':
            while p.peek() in FLAGS: p.next()
            I.ty = p.type(); I.a = [p.value(I.ty)]
        elif op in CASTS:
            while p.peek() in FLAGS: p.next()
            t = p.type(); v = p.value(t); p.need('to'); I.ty = p.type(); I.a = [v]; I.extra = t
        elif op in ('icmp', 'fcmp'):
            while p.peek() in FLAGS: p.next()
            pred = p.next(); t = p.type(); a = p.value(t); p.need(','); b = p.value(t)
            I.ty = I1; I.a = [a, b]; I.extra = (pred, t)
        elif op == 'select':
            while p.peek() in FLAGS: p.next()
            t1, c = p.tv(); p.need(','); t2, a = p.tv(); p.need(','); t3, b = p.tv()
            I.ty = t2; I.a = [c, a, b]
        elif op == 'phi':
            while p.peek() in FLAGS: p.next()
            I.ty = p.type(); inc = []
            while p.eat('['):
                v = p.value(I.ty); p.need(','); b = p.next(); p.need(']'); inc.append((b, v)); p.eat(',')
            I.extra = inc
        elif op == 'load':
            p.eat('volatile'); 
            if p.eat('atomic'): I.extra = 'atomic'
            I.ty = p.type(); p.need(','); t, a = p.tv(); I.a = [a]
        elif op == 'store':
            p.eat('volatile')
            if p.eat('atomic'): I.extra = 'atomic'
            t, v = p.tv(); p.need(','); t2, a = p.tv(); I.a = [v, a]; I.ty = t
        elif op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'): p.next()
            bt = p.type(); p.need(',')
            ops = [p.tv()]
            while p.eat(','):
                if p.peek() and p.peek()[0] == '!': break
                if p.peek() == 'inrange': p.next()
                ops.append(p.tv())
            I.extra = (bt, ops); I.ty = PTR
        elif op == 'br':
            if p.peek() == 'label':
                p.next(); I.a = [p.next()]
            else:
                t = p.type(); c = p.value(t); p.need(','); p.need('label'); a = p.next(); p.need(','); p.need('label'); b = p.next()
                I.extra = c; I.a = [a, b]
        elif op == 'switch':
            t = p.type(); v = p.value(t); p.need(','); p.need('label'); d = p.next(); p.need('[')
            cs = []
            while not p.eat(']'):
                t2 = p.type(); c = p.value(t2); p.need(','); p.need('label'); cs.append((c, p.next()))
            I.ty = t; I.extra = (v, d, cs)
        elif op == 'ret':
            I.ty = p.type()
            if I.ty.k != 'void': I.a = [p.value(I.ty)]
        elif op in ('call', 'invoke'):
            while p.peek() in FLAGS or p.peek() in ('fastcc', 'ccc', 'coldcc') or (p.peek() in PARAM_ATTRS):
                if p.peek() in PARAM_ATTRS: p.skip_attrs()
                else: p.next()
            I.ty = p.type()
            if I.ty.k == 'func': I.ty = I.ty.a
            p.skip_attrs()
            if p.peek() == 'asm': raise Unsupported('asm')
            callee = p.value(PTR); p.need('(')
            args = []
            if not p.eat(')'):
                while True:
                    args.append(p.tv())
                    if p.eat(')'): break
                    p.need(',')
            I.a = args; I.extra = [callee, None, None]
            if op == 'invoke':
                while p.peek() != 'to': p.next()
                p.next(); p.need('label'); n = p.next(); p.need('unwind'); p.need('label'); u = p.next()
                I.extra = [callee, n, u]
        elif op == 'alloca':
            I.ty = p.type(); I.extra = None
            if p.eat(',') and p.peek() != 'align' and p.peek()[0] != '!':
                I.extra = p.tv()
        elif op in ('extractvalue',):
            t, v = p.tv(); idx = []
            while p.eat(','):
                if not re.fullmatch(r'[0-9]+', p.peek() or ''): break
                idx.append(int(p.next()))
            I.a = [v]; I.extra = (t, idx); I.ty = t
        elif op == 'insertvalue':
            t, v = p.tv(); p.need(','); t2, w = p.tv(); idx = []
            while p.eat(','):
                if not re.fullmatch(r'[0-9]+', p.peek() or ''): break
                idx.append(int(p.next()))
            I.a = [v, w]; I.extra = (t, idx); I.ty = t
        elif op == 'freeze':
            I.ty, v = p.tv(); I.a = [v]
        elif op == 'landingpad':
            I.extra = bool(re.search(r'\b(catch|filter)\b', s))
        elif op in ('unreachable', 'resume', 'fence'):
            pass
        elif op == 'extractelement':
            t, v = p.tv(); p.need(','); t2, i = p.tv(); I.a = [v, i]; I.extra = t; I.ty = t.b
        elif op == 'insertelement':
            t, v = p.tv(); p.need(','); t2, w = p.tv(); p.need(','); t3, i = p.tv(); I.a = [v, w, i]; I.ty = t
        elif op in ('shufflevector', 'atomicrmw', 'cmpxchg', 'va_arg', 'indirectbr', 'callbr'):
            I.extra = 'unsupported'
        else:
            raise Unsupported('instr ' + s)
        return I

    # layout -----------------------------------------------------------------
    def resolve(self, t):
        while t.k == 'named':
            body = self.structs.get(t.a)
            if body is None or body == 'opaque': raise Unsupported('opaque type ' + t.a)
            if isinstance(body, str):
                body = P(tokenize(body), self).type()
                self.structs[t.a] = body
            t = body
        return t

    def align(self, t):
        t = self.resolve(t)
        if t.k == 'int':
            n = (t.a + 7) // 8
            r = 1
            while r < n: r *= 2
            return min(r, 16) if t.a > 64 else r
        if t.k == 'fp': return {'float': 4, 'double': 8, 'x86_fp80': 16, 'half': 2, 'fp128': 16}[t.a]
        if t.k == 'ptr': return 8
        if t.k == 'arr': return self.align(t.b)
        if t.k == 'vec': return self.size(t)
        if t.k == 'struct': return 1 if t.b else max([self.align(f) for f in t.a] or [1])
        raise Unsupported('align %r' % t)

    def size(self, t):
        t = self.resolve(t)
        if t.k == 'int':
            n = (t.a + 7) // 8
            r = 1
            while r < n: r *= 2
            return r
        if t.k == 'fp': return {'float': 4, 'double': 8, 'x86_fp80': 16, 'half': 2, 'fp128': 16}[t.a]
        if t.k == 'ptr': return 8
        if t.k == 'arr': return t.a * self.size(t.b)
        if t.k == 'vec': return t.a * self.size(t.b)
        if t.k == 'struct': return self.struct_layout(t)[1]
        raise Unsupported('size %r' % t)

    def struct_layout(self, t):
        off, offs, al = 0, [], 1
        for f in t.a:
            a = 1 if t.b else self.align(f)
            al = max(al, a)
            off = (off + a - 1) // a * a
            offs.append(off)
            off += self.size(f)
        off = (off + al - 1) // al * al
        return offs, off
