"""Verification-condition generator over LLVM IR.

Functions are executed symbolically with states merged at joins and cut at loop
headers.  Every value at iteration k of a loop is a function of the counters of
the enclosing loops, so a fact proved for a generic iteration is a template
that can be used at any iteration that was reached.  Loop invariants are
candidates (induction steps, bounds, frames, array summaries, reduction
fixpoints, contract templates) that are kept only if base and step are proved.
"""
import collections, itertools, re, time
import z3
import ir
from ir import Module, Unsupported, Ty, PTR
from terms import *
import terms as TM
import lin

DEBUG = False


class Refuted(Exception):
    pass


# ------------------------------------------------------------------ memory
class Region:
    """A family of disjoint memory blocks.  elem = element size in bytes (None: a single struct)."""

    def __init__(self, name, elem, length=None, arity=0, fields=None, init=None, check=True, valid=None):
        self.name, self.elem, self.length, self.arity = name, elem, length, arity
        self.fields = fields or {}      # field offset -> initial value spec (callable idx->value)
        self.init = init                # 'zero' | None
        self.check = check
        self.valid = valid
        self.writable = True
        self.dyn = None                 # (machine, state, family) -> current length in elements (vector storage)


class UFBase:
    def __init__(self, kind, decls, prefix, prev=None, descs=None):
        self.kind, self.decls, self.prefix = kind, decls, tuple(prefix)
        self.prev, self.descs = prev, descs

    def value(self, idx):
        a = list(self.prefix) + list(idx)
        vs = [d(*a) if a else d() for d in self.decls]
        if self.kind == 'fp': return FV(*vs)
        if self.kind == 'int': return norm(vs[0])
        return vs[0]

    def subst(self, pairs):
        px = [subst(p, pairs) for p in self.prefix]
        pv = self.prev.subst(pairs) if self.prev else None
        ds = [d.subst(pairs) for d in self.descs] if self.descs is not None else None
        if pv is self.prev and all(a.eq(b) for a, b in zip(px, self.prefix)) and same_objs(ds, self.descs): return self
        return UFBase(self.kind, self.decls, px, pv, ds)


class FnBase:
    """base given by a template value over formal index constants"""

    def __init__(self, formals, val, prev=None, descs=None):
        self.formals, self.val, self.prev, self.descs = formals, val, prev, descs

    def value(self, idx):
        return subst(self.val, list(zip(self.formals, idx)))

    def subst(self, pairs):
        v = subst(self.val, pairs)
        pv = self.prev.subst(pairs) if self.prev else None
        ds = [d.subst(pairs) for d in self.descs] if self.descs is not None else None
        if pv is self.prev and same_objs(ds, self.descs) and same_any(v, self.val): return self
        return FnBase(self.formals, v, pv, ds)


class LoopPtrBase:
    """pointer cells inside/after a loop: last hit of the summarised writes, else the old value"""

    def __init__(self, prev, descs):
        self.prev, self.descs = prev, descs

    def value(self, idx):
        v = self.prev.read(idx)
        for d in self.descs:
            h = d.hits(idx)
            if h is None: raise Unsupported('pointer summary')
            c, pr = h
            v = vite(c, subst(d.val, pr), v)
        return v

    def subst(self, pairs):
        pv, ds = self.prev.subst(pairs), [d.subst(pairs) for d in self.descs]
        if pv is self.prev and same_objs(ds, self.descs): return self
        return LoopPtrBase(pv, ds)


class MergeBase:
    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b

    def value(self, idx):
        return vite(self.cond, self.a.read(idx), self.b.read(idx))

    def subst(self, pairs):
        c, a, b = subst(self.cond, pairs), self.a.subst(pairs), self.b.subst(pairs)
        if a is self.a and b is self.b and c.eq(self.cond): return self
        return MergeBase(c, a, b)


class Desc:
    """writes {idx(vars) := val(vars) | guard(vars)}"""

    def __init__(self, vars, guard, idx, val):
        self.vars, self.guard, self.idx, self.val = tuple(vars), guard, tuple(idx), val

    def subst(self, pairs):
        g, ix, v = subst(self.guard, pairs), [subst(i, pairs) for i in self.idx], subst(self.val, pairs)
        if g.eq(self.guard) and all(a.eq(b) for a, b in zip(ix, self.idx)) and same_any(v, self.val): return self
        return Desc(self.vars, g, ix, v)

    def hits(self, x, over=False):
        """(condition, substitution) under which index x is written; None if not solvable.
        over: a weaker condition will do (guards that depend on an unsolved counter are dropped)"""
        pairs = []
        rem = {v.get_id(): v for v in self.vars}
        eqs = [(i, xx) for i, xx in zip(self.idx, x)]
        progress = True
        while rem and progress:
            progress = False
            for i, xx in eqs:
                p = poly(subst(i, pairs))
                lin = {}
                bad = False
                for m, c in p.items():
                    vs = [a for a in m if a in rem]
                    # atoms that contain the variable non-linearly
                    for a in m:
                        if a not in rem and (consts_in(TM._atoms[a]) & set(rem)): bad = True
                    if len(vs) > 1: bad = True
                    elif len(vs) == 1:
                        mm = list(m); mm.remove(vs[0])
                        lin.setdefault(vs[0], {})[tuple(mm)] = c
                if bad or not lin: continue
                num = padd(poly(xx), {m: c for m, c in p.items() if not [a for a in m if a in rem]}, -1)
                if len(lin) == 1:
                    (v, co), = lin.items()
                    pairs.append((rem.pop(v), _solve_div(num, co)))
                    progress = True
                    break
                if len(lin) == 2:
                    (v1, c1), (v2, c2) = sorted(lin.items(), key=lambda kv: 0 if any(m for m in kv[1]) else 1)
                    # v1 has the larger (symbolic, or larger constant) coefficient
                    if not any(m for m in c1):
                        if abs(c1.get((), 0)) < abs(c2.get((), 0)): v1, c1, v2, c2 = v2, c2, v1, c1
                    s1 = _solve_div(num, c1)
                    pairs.append((rem.pop(v1), s1))
                    progress = True
                    break
        drop = set()
        for v in list(rem.values()):
            # the index does not depend on this counter: the last iteration decides
            last = self.last_value(v, pairs, drop if over else None)
            if last is None: return None
            rem.pop(v.get_id())
            pairs.append((v, last))
        cs = [subst(mk_and(*[c for c in conjuncts(self.guard) if c.get_id() not in drop]) if drop else self.guard, pairs)]
        for i, xx in zip(self.idx, x):
            cs.append(ieq(subst(i, pairs), xx))
        return mk_and(*cs), pairs


    def last_value(self, v, pairs, drop=None):
        i = v.get_id()
        if any(i in consts_in(subst(x, pairs)) for x in self.idx): return None
        up = None
        lo = False
        for c0 in conjuncts(self.guard):
            c = subst(c0, pairs)
            if i not in consts_in(c): continue
            b = self.simple_bound(c, i)
            if b is None:
                if drop is None: return None
                drop.add(c0.get_id())
            elif isinstance(b, str): lo = True
            elif up is not None: return None
            else: up = b
        return up if lo and up is not None else None

    @staticmethod
    def simple_bound(c, i):
        neg = z3.is_not(c)
        if neg: c = c.arg(0)
        kd = c.decl().kind()
        if c.num_args() != 2 or kd not in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT): return None
        a, b = norm(c.arg(0)), norm(c.arg(1))
        if kd in (z3.Z3_OP_GE, z3.Z3_OP_GT): a, b = b, a
        strict = kd in (z3.Z3_OP_LT, z3.Z3_OP_GT)
        if neg: a, b, strict = b, a, not strict
        d = padd(poly(b), poly(a), -1)                # d >= 0 (or > 0)
        if strict: d = padd(d, {(): 1}, -1)
        co = d.pop((i,), 0)
        if co not in (1, -1) or i in consts_in(expr(d)): return None
        return 'lo' if co == 1 else expr(d)


def _solve_div(num, co):
    if len(co) == 1 and () in co and abs(co[()]) == 1:
        return expr({m: c * co[()] for m, c in num.items()})
    e, d = expr(num), expr(co)
    if len(co) == 1:
        (m, c), = co.items()
        if c < 0:
            e, d = expr({mm: -cc for mm, cc in num.items()}), expr({m: -c})
    return idiv(e, d)


class Cell:
    __slots__ = ('kind', 'base', 'log')

    def __init__(self, kind, base, log=()):
        self.kind, self.base, self.log = kind, base, log

    def read(self, idx):
        v = None
        pend = []
        for d in reversed(self.log):
            h = d.hits(idx)
            if h is None: raise Unsupported('unsolvable write index')
            c, pr = h
            if is_f(c): continue
            pend.append((c, subst(d.val, pr) if pr else d.val))
            if is_t(c): break
        if pend and is_t(pend[-1][0]):
            v = pend.pop()[1]
        else:
            v = self.base.value(idx)
        for c, val in reversed(pend):
            v = vite(c, conv_kind(val, v), v)
        return v

    def write(self, desc):
        return Cell(self.kind, self.base, self.log + (desc,))

    def subst(self, pairs):
        b, lg = self.base.subst(pairs), tuple(d.subst(pairs) for d in self.log)
        if b is self.base and same_objs(lg, self.log): return self
        return Cell(self.kind, b, lg)


def same_objs(a, b):
    if a is None or b is None: return a is b
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def same_any(a, b):
    if isinstance(a, FV): return isinstance(b, FV) and all(x.eq(y) for x, y in zip(a.parts(), b.parts()))
    if isinstance(a, Ptr): return isinstance(b, Ptr) and a.reg == b.reg and a.off.eq(b.off) and len(a.fam) == len(b.fam) and all(x.eq(y) for x, y in zip(a.fam, b.fam))
    if isinstance(a, Choice): return isinstance(b, Choice) and len(a.alts) == len(b.alts) and all(c.eq(d) and same_any(p, q) for (c, p), (d, q) in zip(a.alts, b.alts))
    if isinstance(a, Agg): return isinstance(b, Agg) and len(a.vals) == len(b.vals) and all(same_any(x, y) for x, y in zip(a.vals, b.vals))
    if z3.is_expr(a) and z3.is_expr(b): return a.eq(b)
    return a is b


def conv_kind(a, like):
    return a


def writes_since(cell, origin, guard=T):
    """list of Desc since the given origin cell, oldest first; None if unknown"""
    own = [Desc(d.vars, mk_and(guard, d.guard), d.idx, d.val) for d in cell.log]
    if cell.base is origin.base:
        # log prefix shared
        n = len(origin.log)
        return own[n:]
    b = cell.base
    if isinstance(b, MergeBase):
        wa = writes_since(b.a, origin, mk_and(guard, b.cond)); wb = writes_since(b.b, origin, mk_and(guard, mk_not(b.cond)))
        if wa is None or wb is None: return None
        return wa + wb + own
    if getattr(b, 'prev', None) is not None:
        w = writes_since(b.prev, origin, guard)
        if w is None: return None
        if b.descs is None: return None
        return w + [Desc(d.vars, mk_and(guard, d.guard), d.idx, d.val) for d in b.descs] + own
    return None


class State:
    __slots__ = ('pc', 'mem', 'ctx')

    def __init__(self, pc, mem, ctx):
        self.pc, self.mem, self.ctx = pc, mem, ctx

    def copy(self): return State(self.pc, dict(self.mem), self.ctx)

    def assume(self, c):
        if is_t(c): return self
        cs = c.children() if z3.is_and(c) else [c]
        ids = {x.get_id() for x in self.pc}
        self.pc = self.pc + tuple(x for x in cs if x.get_id() not in ids)
        return self

    def dead(self):
        if any(is_f(c) for c in self.pc): return True
        ids = {x.get_id() for x in self.pc}
        return any(z3.is_not(c) and c.arg(0).get_id() in ids for c in self.pc)


class Frame:
    def __init__(self, fn, path, info):
        self.fn, self.path, self.info = fn, path, info
        self.env = {}
        self.rets = []


class FnInfo:
    """CFG analysis: reverse post order, dominators, natural loops"""

    def __init__(self, fn):
        self.succ = {}
        for b in fn.order:
            t = fn.blocks[b][-1]
            if t.op == 'br': s = list(t.a)
            elif t.op == 'switch': s = [t.extra[1]] + [l for _, l in t.extra[2]]
            elif t.op == 'invoke': s = [t.extra[1]]
            else: s = []
            self.succ[b] = list(dict.fromkeys(s))
        seen, post = set(), []

        def dfs(b):
            st = [(b, iter(self.succ[b]))]
            seen.add(b)
            while st:
                x, it = st[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y); st.append((y, iter(self.succ[y]))); break
                else:
                    post.append(x); st.pop()
        dfs(fn.order[0])
        self.rpo = post[::-1]
        pos = {b: i for i, b in enumerate(self.rpo)}
        pred = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in self.succ[b]: pred[s].append(b)
        self.pred = pred
        idom = {self.rpo[0]: self.rpo[0]}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                ps = [p for p in pred[b] if p in idom]
                n = ps[0]
                for p in ps[1:]:
                    x, y = p, n
                    while x != y:
                        while pos[x] > pos[y]: x = idom[x]
                        while pos[y] > pos[x]: y = idom[y]
                    n = x
                if idom.get(b) != n: idom[b] = n; ch = True

        def dom(a, b):
            while True:
                if a == b: return True
                if idom[b] == b: return False
                b = idom[b]
        self.loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if pos[s] <= pos[b]:
                    if not dom(s, b): raise Unsupported('irreducible loop')
                    body = self.loops.setdefault(s, {s})
                    stack = [b]
                    while stack:
                        x = stack.pop()
                        if x in body: continue
                        body.add(x)
                        stack.extend(pred[x])
        self.inner = {}     # block -> innermost loop header
        for b in self.rpo:
            cands = [h for h, body in self.loops.items() if b in body]
            self.inner[b] = min(cands, key=lambda h: len(self.loops[h])) if cands else None
        self.parent = {}
        for h in self.loops:
            cands = [g for g, body in self.loops.items() if g != h and h in body]
            self.parent[h] = min(cands, key=lambda g: len(self.loops[g])) if cands else None
        # values defined inside a loop and used outside
        self.defblock = {}
        for b in self.rpo:
            for I in fn.blocks[b]:
                if I.res: self.defblock[I.res] = b


class LoopInfo:
    def __init__(self):
        self.mod = {}        # cell keys modified
        self.ind = {}        # phi index -> delta expr (or None: not an induction variable)
        self.memind = {}     # scalar cell key -> delta expr or None
        self.stride = {}
        self.stable = False
        self.cands = None
        self.dropped = set()


class Cand:
    """invariant candidate.  build(view, K, extras) -> formula;  trigger: 'R', ('phi', i), ('cell', key)"""

    def __init__(self, name, trigger, build, extras=(), kind='inv'):
        self.name, self.trigger, self.build, self.extras, self.kind = name, trigger, build, extras, kind


class View:
    def __init__(self, phis, cellf, k):
        self.phis, self.cell, self.k = phis, cellf, k


class Machine:
    def __init__(self, mod, contracts=None, bv=(), timeout=10000, float_mode='real'):
        self.mod = mod
        self.guards = {}        # region -> monitor of its accesses (lock discipline)
        self.contracts = contracts or []
        self.bv = set(bv)
        self.timeout = timeout
        self.regions = {'NULL': Region('NULL', 1, icst(0))}
        self.initial = {}
        self.kinds = {}
        self.facts = []
        self.ghosts = set()          # (decl ids, formals, body, extras, ctxcounters)
        self.by_decl = {}
        self.reach_hints = False
        self.rinfo = {}          # R decl id -> dict(cont, k, pc0)
        self.globals = []
        self.obl = []
        self.active = []
        self.discover = 0
        self.infos = {}
        self.loopinfo = {}
        self.hints = []
        self.throws = []
        self.templates = []      # callables(machine, loopctx) -> list of Cand
        self.assumptions = set()
        self.visited = {}
        self.stats = dict(queries=0, solver_s=0.0, houdini=0)
        self.deadline = None
        self.solver_cache = {}
        self.read_only = set()
        self.uninit = set()
        self.opaque_calls = set()
        self.maxgen = 5

    # ------------------------------------------------------------ symbols
    def sym(self, name, kind, ctx, w=None):
        dom = [z3.IntSort()] * len(ctx)

        def mk(n, sort):
            return z3.Function(n, *dom, sort)(*ctx) if ctx else z3.Const(n, sort)
        if kind == 'fp':
            return FV(mk(name + '.nan', z3.BoolSort()), mk(name + '.inf', z3.BoolSort()), mk(name + '.v', z3.RealSort()))
        if kind == 'bool': return mk(name, z3.BoolSort())
        if kind == 'int': return norm(mk(name, z3.IntSort()))
        if kind.startswith('bv'): return mk(name, z3.BitVecSort(int(kind[2:])))
        raise Unsupported('symbol kind ' + kind)

    def kind_of(self, ty):
        if ty.k == 'int':
            if ty.a == 1: return 'bool'
            if ty.a in self.bv: return 'bv%d' % ty.a
            return 'int'
        if ty.k == 'fp': return 'fp'
        if ty.k == 'ptr': return 'ptr'
        raise Unsupported('value type %r' % ty)

    # ------------------------------------------------------------ facts
    def checkpoint(self):
        return len(self.facts), len(self.obl), len(self.throws), len(self.globals), dict(self.rinfo)

    def rollback(self, m):
        nf, no, nt, ng, ri = m
        while len(self.facts) > nf:
            f = self.facts.pop()
            for d in f[0]: self.by_decl[d].remove(f)
        del self.obl[no:]; del self.throws[nt:]; del self.globals[ng:]
        self.rinfo = ri

    def add_fact(self, decls, formals, body, extras=()):
        if is_t(body): return
        ids = []
        for d in decls:
            if d.get_id() not in ids: ids.append(d.get_id())
        TM._keep.extend(decls)
        f = (tuple(ids), tuple(formals), body, tuple(extras))
        f += (bool(self.ghosts) and has_decl(body, self.ghosts),)
        self.facts.append(f)
        for d in f[0]: self.by_decl.setdefault(d, []).append(f)

    def val_decls(self, v):
        if isinstance(v, FV):
            return [x.decl() for x in v.parts() if x.num_args() or x.decl().kind() == z3.Z3_OP_UNINTERPRETED]
        return [v.decl()]

    def fact_on(self, v, ctx, body, pc=(), extras=()):
        """fact about a fresh symbol v that lives in ctx, valid under pc"""
        self.add_fact(self.val_decls(v), ctx, mk_imp(mk_and(*pc), body), extras)

    # ------------------------------------------------------------ proving
    def saturate(self, forms, hints=(), limit=6000, ghost=True, maxgen=None):
        if maxgen is None: maxgen = self.maxgen
        self.truncated = False
        active = list(self.active)
        out, seen_app, seen_f = [], set(), set()
        rapps = {}
        work = collections.deque((f, 0) for f in forms)
        dm = set()
        levels = {}
        exfacts = []          # (fact, formals->args) pending extras
        hintset = {}
        for h in list(self.hints) + list(hints):
            hintset[h.get_id()] = h
        for h in active:
            hintset[h.get_id()] = h
        exdone = set()
        rounds = 0
        rw, deferred = Rewriter(self, forms), []
        while work or True:
            if not work and deferred:
                work, deferred = collections.deque((f, (g,)) for f, g in deferred), []
            if not work:
                if maxgen == 0: break
                # instantiate facts with extra quantified variables over hints
                new = []
                for f, actual in exfacts:
                    for combo in itertools.product(list(hintset.values()), repeat=len(f[3])):
                        key = (id(f), tuple(a.get_id() for a in actual), tuple(c.get_id() for c in combo))
                        if key in exdone: continue
                        exdone.add(key)
                        b = self.inst(f, actual, combo, active)
                        new.append(b)
                # pairwise reachability
                for d, apps in rapps.items():
                    ri = self.rinfo.get(d)
                    if not ri: continue
                    for a in apps:
                        # iterations asked for by a hint were reached, too
                        for x in (hints if self.reach_hints else ()):
                            key = ('RH', a.get_id(), x.get_id())
                            if key in exdone: continue
                            exdone.add(key)
                            A = a.children()[:-1] + [norm(x)]
                            new.append(mk_imp(mk_and(a, ile(icst(0), x), ilt(x, a.children()[-1])), mk_and(ri['R'](*A), subst(ri['cont'], list(zip(ri['formals'], A))))))
                        for b in apps:
                            if a is b: continue
                            key = ('R', a.get_id(), b.get_id())
                            if key in exdone: continue
                            exdone.add(key)
                            A, B = a.children(), b.children()
                            eqp = mk_and(*[ieq(x, y) for x, y in zip(A[:-1], B[:-1])])
                            if is_f(eqp): continue
                            pr = list(zip(ri['formals'], A[:-1] + [B[-1]]))
                            body = mk_imp(mk_and(a, eqp, ile(icst(0), B[-1]), ilt(B[-1], A[-1])), mk_and(ri['R'](*(A[:-1] + [B[-1]])), subst(ri['cont'], pr)))
                            new.append(body)
                new = [n for n in new if not is_t(n)]
                if not new: break
                rounds += 1
                if rounds > 4: break
                work = collections.deque((f, rounds) for f in new)
            f, gen = work.popleft()
            i = f.get_id()
            if i in seen_f or is_t(f): continue
            if maxgen and rw.todo(f):
                if not isinstance(gen, tuple):
                    deferred.append((f, gen)); continue
                f = rw.rewrite(f, out)
                gen = gen[0]
                if is_t(f) or f.get_id() in seen_f: continue
                i = f.get_id()
            elif isinstance(gen, tuple): gen = gen[0]
            seen_f.add(i)
            out.append(f)
            if len(out) > limit:
                self.truncated = True
                return out
            for a in self.apps_cached(f):
                ai = a.get_id()
                if ai in seen_app: continue
                seen_app.add(ai)
                d = a.decl()
                di = d.get_id()
                if d.eq(TM.DIV) or d.eq(TM.MOD):
                    work.extend((x, gen + 1) for x in self.divmod_facts(a.arg(0), a.arg(1), dm))
                    continue
                if di in self.rinfo:
                    rapps.setdefault(di, []).append(a)
                for fa in self.by_decl.get(di, ()):
                    if not ghost and fa[4]: continue
                    n = len(fa[1])
                    actual = tuple(a.children()[:n])
                    if fa[3]:
                        exfacts.append((fa, actual))
                    else:
                        if gen < maxgen: work.append((self.inst(fa, actual, (), active), gen + 1))
        return out

    def apps_cached(self, f):
        return apps_in0(f)

    def inst(self, f, actual, extra, active):
        pairs = []
        guards = []
        for v, a in zip(f[1], actual):
            if v.eq(a): continue
            pairs.append((v, a))
            for k in active:
                if k.eq(v): guards.append(ile(a, k))
        for v, a in zip(f[3], extra):
            pairs.append((v, a))
        b = subst(f[2], pairs) if pairs else f[2]
        if guards: b = mk_imp(mk_and(*guards), b)
        return b

    def divmod_facts(self, a, b, done):
        key = (a.get_id(), b.get_id())
        if key in done: return []
        done.add(key)
        q, r = TM.DIV(a, b), TM.MOD(a, b)
        out = [mk_imp(b > 0, z3.And(a == norm(imul(b, q)) + r, r >= 0, r < b)),
               mk_imp(z3.And(b > 0, a >= 0), q >= 0),
               mk_imp(z3.And(b > 0, a < b, a >= 0), q == 0)]
        pa, pb = poly(a), poly(b)
        if len(pb) == 1:
            quo, rest = {}, {}
            for m, c in pa.items():
                x = pdiv_mono({m: c}, pb)
                if x is None: rest[m] = c
                else: quo = padd(quo, x)
            if quo:
                re_, qe = expr(rest), expr(quo)
                out.append(mk_imp(mk_and(ile(icst(0), re_), ilt(re_, b)), z3.And(q == qe, r == re_)))
        return out

    def nonneg_lemmas(self, forms):
        """sign and monotonicity lemmas for non-linear integer monomials"""
        mons = {}
        seen = set()
        st = list(forms)
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen: continue
            seen.add(i)
            if z3.is_int(x) and x.decl().kind() in (z3.Z3_OP_MUL, z3.Z3_OP_ADD):
                for m in poly(x):
                    if len(m) > 1: mons[m] = 1
            st.extend(x.children())
        out = []
        return out

    def check(self, forms, timeout=None):
        """sat check of a list of formulas after instantiation -> 'sat'/'unsat'/'unknown', model"""
        s = z3.Solver()
        s.set('timeout', timeout or self.timeout)
        for f in forms: s.add(f)
        t = time.time()
        r = s.check()
        self.stats['queries'] += 1
        self.stats['solver_s'] += time.time() - t
        if r == z3.sat: return 'sat', s.model()
        return str(r), None

    def split_on(self, goal):
        """a case distinction x == e on a skolem constant x that decides an if-then-else of the goal"""
        st, seen = [goal], set()
        while st:
            x = st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if x.decl().kind() == z3.Z3_OP_ITE:
                c = x.arg(0)
                pairs, used, ok = [], set(), True
                for q in conjuncts(c):
                    if not (z3.is_eq(q) and z3.is_int(q.arg(0))): ok = False; break
                    for u, v in ((q.arg(0), q.arg(1)), (q.arg(1), q.arg(0))):
                        if u.num_args() == 0 and u.decl().name().startswith('sk!') and u.get_id() not in used and u.get_id() not in consts_in(v):
                            pairs.append((u, v)); used.add(u.get_id()); break
                    else: ok = False; break
                if ok and pairs and not any(u.get_id() in consts_in(v) for u, _ in pairs for _, v in pairs):
                    TM._keep.append(c)
                    return c, pairs
            st.extend(x.children())
        return None

    def prove(self, pc, goal, hints=(), timeout=None, want_model=False, depth=0):
        if is_t(goal): return ('proved', None)
        if self.deadline and time.time() > self.deadline: return ('unknown', 'deadline')
        sp = self.split_on(goal) if depth < 4 else None
        if sp is not None:
            c, pairs = sp
            g1 = renorm(z3.substitute(goal, *pairs, (c, z3.BoolVal(True))))
            pc1 = [renorm(z3.substitute(x, *pairs)) for x in pc]
            r = self.prove(pc1, g1, hints, timeout, depth=depth + 1)
            if r[0] != 'proved': return r
            g2 = renorm(z3.substitute(goal, (c, z3.BoolVal(False))))
            return self.prove(list(pc) + [mk_not(c)], g2, hints, timeout, depth=depth + 1)
        base = list(pc) + [mk_not(goal)] + list(self.globals)
        # first without instances, then without the facts about specification functions when the goal has none
        stages = [(False, 0, 300)]
        if self.ghosts and not has_decl(goal, self.ghosts): stages.append((False, None, timeout))
        stages.append((True, None, timeout))
        for ghost, mg, to in stages:
            forms = self.saturate(base, hints, ghost=ghost, maxgen=mg)
            trunc = self.truncated
            t = time.time()
            r, m = lin.decide(forms, min(to or self.timeout, 2000), 6 if mg == 0 else 12)
            self.stats['queries'] += 1
            self.stats['solver_s'] += time.time() - t
            if r == 'unknown' and mg is None:
                r, m = self.check(forms, 400)
                if r == 'unknown':
                    t = time.time()
                    r, m = lin.decide(forms, min(to or self.timeout, 6000))
                    self.stats['queries'] += 1
                    self.stats['solver_s'] += time.time() - t
                if r == 'unknown': r, m = self.check(forms, to)
            if r == 'unsat': return ('proved', None)
            if r != 'sat' and mg is None: break
        if r == 'sat' and not trunc: return ('failed', m)
        return ('unknown', None)

    def obligation(self, name, kind, st, goal, hints=(), timeout=None):
        if self.discover: return
        t = time.time()
        r, m = self.prove(st.pc, goal, hints, timeout)
        o = dict(name=name, kind=kind, status=r, s=round(time.time() - t, 3), model=m, goal=goal)
        self.obl.append(o)
        if DEBUG or (r != 'proved' and DEBUG is not None and DEBUG):
            print('   [%s] %s %s %.2fs' % (r, kind, name, o['s']))

    # ------------------------------------------------------------ memory access
    def region(self, r):
        self.regions[r.name] = r
        return r

    def cell_key(self, p, size):
        """split pointer into (key, idx tuple)"""
        reg = self.regions.get(p.reg)
        if reg is None: raise Unsupported('region ' + p.reg)
        if reg.elem is None:
            c = const_of(p.off)
            if c is None: raise Unsupported('symbolic offset into struct %s: %s' % (p.reg, p.off))
            return (p.reg, c), p.fam + (icst(0),)
        pp = poly(p.off)
        c = pp.get((), 0)
        E = reg.elem
        f = c % E
        rest = dict(pp)
        rest[()] = c - f
        q = pdiv_const({m: v for m, v in rest.items() if v}, E)
        if q is None:
            raise Unsupported('offset %s not a multiple of element size %d of %s' % (p.off, E, p.reg))
        return (p.reg, f), p.fam + (expr(q),)

    def get_cell(self, st, key, kind):
        c = st.mem.get(key)
        if c is None:
            c = self.initial.get(key)
            if c is None:
                c = self.make_initial(key, kind)
                self.initial[key] = c
            st.mem[key] = c
        if c.kind == 'int' and kind == 'ptr' and c.base is self.initial.get(key, c).base and all(z3.is_expr(d.val) and const_of(d.val) == 0 for d in c.log):
            # zeroed with an integer store before it is used as a pointer
            i0 = self.make_initial(key, 'ptr')
            self.initial[key] = i0
            c = st.mem[key] = Cell('ptr', i0.base, tuple(Desc(d.vars, d.guard, d.idx, NULL) for d in c.log))
        if c.kind != kind:
            if {c.kind, kind} <= {'int', 'bv8', 'bv32', 'bv64', 'bool'}:
                raise Unsupported('cell %s accessed as %s and %s' % (key, c.kind, kind))
            raise Unsupported('cell %s accessed as %s and %s' % (key, c.kind, kind))
        return c

    def make_initial(self, key, kind):
        reg = self.regions[key[0]]
        n = reg.arity + 1
        formals = [z3.Int('ix!%d' % i) for i in range(n)]
        if key[1] in reg.fields:
            v = reg.fields[key[1]]
            val = v(*formals) if callable(v) else v
            return Cell(kind, FnBase(formals, val))
        if reg.init == 'zero':
            if kind == 'fp': val = ZERO
            elif kind == 'int': val = icst(0)
            elif kind == 'bool': val = F
            elif kind == 'ptr': val = NULL
            else: val = z3.BitVecVal(0, int(kind[2:]))
            return Cell(kind, FnBase(formals, val))
        if kind == 'ptr':
            return Cell(kind, FnBase(formals, Ptr('UNINIT!%s!%d' % key, (), icst(0))))
        nm = 'm0!%s!%d' % key
        dom = [z3.IntSort()] * n
        if kind == 'fp':
            ds = [z3.Function(nm + '.nan', *dom, z3.BoolSort()), z3.Function(nm + '.inf', *dom, z3.BoolSort()), z3.Function(nm + '.v', *dom, z3.RealSort())]
        elif kind == 'int': ds = [z3.Function(nm, *dom, z3.IntSort())]
        elif kind == 'bool': ds = [z3.Function(nm, *dom, z3.BoolSort())]
        else: ds = [z3.Function(nm, *dom, z3.BitVecSort(int(kind[2:])))]
        return Cell(kind, UFBase(kind, ds, ()))

    def rlen(self, st, reg, fam):
        if reg.dyn is not None: return reg.dyn(self, st, fam)
        return reg.length(*fam) if callable(reg.length) else reg.length

    def in_bounds(self, p, size, st=None):
        """formula: access of size bytes at p lies inside its region"""
        reg = self.regions.get(p.reg)
        if reg is None: return F
        if p.reg == 'NULL': return F
        if reg.elem is None or not reg.check: return self.not_freed(st, p)
        L = self.rlen(st, reg, p.fam)
        if L is None: return self.not_freed(st, p)
        g = mk_and(ile(icst(0), p.off), ile(iadd(p.off, icst(size)), imul(L, icst(reg.elem))))
        if reg.valid is not None: g = mk_and(g, reg.valid(*p.fam))
        return mk_and(g, self.not_freed(st, p))

    def not_freed(self, st, p):
        k = ('freed!' + p.reg, 0)
        if st is None or k[0] not in self.regions: return T
        return mk_not(self.get_cell(st, k, 'bool').read(p.fam + (icst(0),)))

    def resolve_alts(self, st, p):
        """alternatives of a pointer that are feasible on this path"""
        al = alts(p)
        if len(al) == 1: return al
        if self.discover:
            return [(c, q) for c, q in al if not q.reg.startswith('UNINIT') and q.reg != 'NULL'] or al
        out = []
        for c, q in al:
            r, _ = self.prove(st.pc, mk_not(c), timeout=3000)
            if r != 'proved': out.append((c, q))
        if len(out) == 1:
            return [(T, out[0][1])]
        return out

    def load(self, st, p, ty, what=''):
        if isinstance(p, Undef): raise Unsupported('load through undef')
        ty = self.mod.resolve(ty)
        if ty.k in ('struct', 'arr'):
            if ty.k == 'struct':
                offs, _ = self.mod.struct_layout(ty)
                return Agg([self.load(st, padd_ptr(p, icst(o)), t, what) for o, t in zip(offs, ty.a)])
            es = self.mod.size(ty.b)
            return Agg([self.load(st, padd_ptr(p, icst(i * es)), ty.b, what) for i in range(ty.a)])
        kind = self.kind_of(ty)
        size = self.mod.size(ty)
        v = None
        al = self.resolve_alts(st, p)
        if kind == 'int' and size == 8 and any(self.holds_pointer(st, q) for _, q in al): return PInt(self.load(st, p, PTR, what))
        pieces = self.pieces(al, ty, size)
        if pieces:
            # an integer-typed copy of an object made of floating-point members
            xs = [self.load(st, padd_ptr(p, icst(o)), t, what) for o, t in pieces]
            return Agg(xs) if len(xs) > 1 else xs[0]
        good = [(c, q) for c, q in al if q.reg in self.regions and q.reg != 'NULL']
        bad = mk_or(*[c for c, q in al if not (q.reg in self.regions and q.reg != 'NULL')] or [F])
        if not good:
            if all(q.reg == 'NULL' for c, q in al):
                # a null pointer: the access must be unreachable
                self.obligation('load through a null pointer %s' % what, 'bounds', st, F)
                return NULL if kind == 'ptr' else self.sym('nullload!%d' % len(self.obl), kind, ())
            raise Unsupported('load through %r' % (p,))
        goal = mk_and(mk_not(bad), *[mk_imp(c, self.in_bounds(q, size, st)) for c, q in good])
        if not is_t(goal):
            self.obligation('load %s' % what, 'bounds', st, goal)
        given = {}
        for c, q in good:
            # a monitor may say what is read
            if q.reg in self.guards: given[id(q)] = self.guards[q.reg](self, st, q, size, c, False, None)
        for c, q in reversed(good):
            if given.get(id(q)) is not None: x = given[id(q)]
            elif self.bytewise(q, size, kind):
                bs = []
                for j in range(size):
                    key, idx = self.cell_key(q.add(icst(j)), 1)
                    bs.append(self.get_cell(st, key, 'bv8').read(idx))
                x = z3.simplify(z3.Concat(*bs[::-1]))
            else:
                key, idx = self.cell_key(q, size)
                x = self.get_cell(st, key, kind).read(idx)
            v = x if v is None else vite(c, x, v)
        return v

    def holds_pointer(self, st, q):
        """the cell at q is known to hold a pointer (an integer access copies it)"""
        reg = self.regions.get(q.reg)
        if reg is None or q.reg == 'NULL': return False
        if reg.elem is None:
            o = const_of(q.off)
            if o is None: return False
        else:
            o = poly(q.off).get((), 0) % reg.elem
        c = st.mem.get((q.reg, o)) or self.initial.get((q.reg, o))
        if c is not None: return c.kind == 'ptr'
        return isinstance(reg.fields.get(o), (Ptr, Choice))

    def pieces(self, al, ty, size):
        if ty.k != 'int' or size < 4: return None
        for c, q in al:
            reg = self.regions.get(q.reg)
            lay = getattr(reg, 'layout', None)
            if not lay: return None
            o = poly(q.off).get((), 0) % reg.elem if reg.elem else const_of(q.off)
            if o is None: return None
            mine = sorted((f, k) for f, k in lay.items() if o <= f < o + size)
            if not mine or any(k != 'fp' for f, k in mine): return None
            w = size // len(mine)
            if w not in (4, 8) or [f - o for f, k in mine] != [i * w for i in range(len(mine))]: return None
        return [(f - o, ir.FLOAT if w == 4 else ir.DOUBLE) for f, k in mine]

    def bytewise(self, q, size, kind):
        """little-endian access of a wider bit vector in a byte buffer"""
        reg = self.regions[q.reg]
        return reg.elem == 1 and size > 1 and kind.startswith('bv') and 8 in self.bv

    def store(self, st, p, v, ty, what=''):
        if isinstance(p, Undef): raise Unsupported('store through undef')
        ty = self.mod.resolve(ty)
        if isinstance(v, Undef): return
        if isinstance(v, PInt) and ty.k == 'int' and self.mod.size(ty) == 8: v, ty = v.p, PTR
        if isinstance(v, FV) and ty.k == 'int': v = Agg([v])
        if isinstance(v, Agg) and ty.k == 'int':
            w = self.mod.size(ty) // len(v.vals)
            for i, x in enumerate(v.vals): self.store(st, padd_ptr(p, icst(i * w)), x, ir.FLOAT if w == 4 else ir.DOUBLE, what)
            return
        if ty.k in ('struct', 'arr'):
            if ty.k == 'struct':
                offs, _ = self.mod.struct_layout(ty)
                for o, t, x in zip(offs, ty.a, v.vals): self.store(st, padd_ptr(p, icst(o)), x, t, what)
            else:
                es = self.mod.size(ty.b)
                for i, x in enumerate(v.vals): self.store(st, padd_ptr(p, icst(i * es)), x, ty.b, what)
            return
        kind = self.kind_of(ty)
        size = self.mod.size(ty)
        al = self.resolve_alts(st, p)
        good = [(c, q) for c, q in al if q.reg in self.regions and q.reg != 'NULL']
        bad = mk_or(*[c for c, q in al if not (q.reg in self.regions and q.reg != 'NULL')] or [F])
        if not good:
            if all(q.reg == 'NULL' for c, q in al):
                self.obligation('store through a null pointer %s' % what, 'bounds', st, F)
                return
            raise Unsupported('store through %r' % (p,))
        goal = mk_and(mk_not(bad), *[mk_imp(c, self.in_bounds(q, size, st)) for c, q in good])
        if not is_t(goal):
            self.obligation('store %s' % what, 'bounds', st, goal)
        # a monitor may take over the write
        good = [(c, q) for c, q in good if not (q.reg in self.guards and self.guards[q.reg](self, st, q, size, c, True, v))]
        for c, q in good:
            if q.reg in self.read_only:
                self.obligation('write to read-only %s' % q.reg, 'frame', st, mk_not(c))
            if self.bytewise(q, size, kind):
                for j in range(size):
                    key, idx = self.cell_key(q.add(icst(j)), 1)
                    self.write_cell(st, key, 'bv8', Desc((), c, idx, z3.simplify(z3.Extract(8 * j + 7, 8 * j, v))))
                continue
            key, idx = self.cell_key(q, size)
            self.write_cell(st, key, kind, Desc((), c, idx, v))

    def write_cell(self, st, key, kind, desc):
        cell = self.get_cell(st, key, kind)
        log = cell.log
        # overwrite of the same element: drop earlier identical single write
        if not desc.vars and is_t(desc.guard) and log:
            d = log[-1]
            if not d.vars and all(is_t(ieq(a, b)) for a, b in zip(d.idx, desc.idx)):
                log = log[:-1]
                st.mem[key] = Cell(kind, cell.base, log + (desc,))
                return
        st.mem[key] = cell.write(desc)

    # ------------------------------------------------------------ merging
    def merge(self, items):
        """items: [(state, vals)] -> (state, vals)"""
        items = [(s, v) for s, v in items if not s.dead()]
        if not items: return None
        if len(items) == 1: return items[0]
        ids = [set(x.get_id() for x in s.pc) for s, _ in items]
        common_ids = set.intersection(*ids)
        common = tuple(x for x in items[0][0].pc if x.get_id() in common_ids)
        rests = [mk_and(*[x for x in s.pc if x.get_id() not in common_ids]) for s, _ in items]
        disj = simp_or(rests)
        pc = common + (() if is_t(disj) else (disj,))
        acc_s, acc_v = items[-1]
        acc_mem, acc_vals = dict(acc_s.mem), acc_v
        for (s, v), r in list(zip(items, rests))[-2::-1]:
            acc_vals = [vite(r, a, b) for a, b in zip(v, acc_vals)]
            mem = {}
            for key in set(s.mem) | set(acc_mem):
                a = s.mem.get(key) or self.initial.get(key)
                b = acc_mem.get(key) or self.initial.get(key)
                mem[key] = self.merge_cell(r, a, b)
            acc_mem = mem
        return State(pc, acc_mem, items[0][0].ctx), acc_vals

    def merge_cell(self, c, a, b):
        if a is b or a is None or b is None: return b if a is None else a
        if a.base is b.base:
            n = 0
            while n < len(a.log) and n < len(b.log) and a.log[n] is b.log[n]: n += 1
            if n == len(a.log) and n == len(b.log): return a
            sa = tuple(Desc(d.vars, mk_and(c, d.guard), d.idx, d.val) for d in a.log[n:])
            nc = mk_not(c)
            sb = tuple(Desc(d.vars, mk_and(nc, d.guard), d.idx, d.val) for d in b.log[n:])
            # both branches write the same single element
            if len(sa) == 1 and len(sb) == 1 and not sa[0].vars and not sb[0].vars and \
                    all(is_t(ieq(x, y)) for x, y in zip(sa[0].idx, sb[0].idx)) and is_t(a.log[n].guard) and is_t(b.log[n].guard):
                return Cell(a.kind, a.base, a.log[:n] + (Desc((), T, sa[0].idx, vite(c, sa[0].val, sb[0].val)),))
            return Cell(a.kind, a.base, a.log[:n] + sa + sb)
        return Cell(a.kind, MergeBase(c, a, b))

    # ------------------------------------------------------------ execution
    def fn_info(self, fn):
        if fn.name not in self.infos: self.infos[fn.name] = FnInfo(fn)
        return self.infos[fn.name]

    def run_function(self, name, args, st, path):
        fn = self.mod.func(name)
        if path.count('/') > 40: raise Unsupported('call depth (recursion?) at ' + name)
        info = self.fn_info(fn)
        self.visited[name] = self.visited.get(name, 0) + 1
        fr = Frame(fn, path, info)
        for (t, n), a in zip(fn.params, args): fr.env[n] = a
        exits = self.run_region(fr, None, fn.order[0], st, [])
        if not fr.rets: return None, None
        m = self.merge(fr.rets)
        if m is None: return None, None
        s, v = m
        return s, (v[0] if v else None)

    def run_region(self, fr, header, start, st, startvals):
        """execute the blocks of one loop body (or the function); returns exits, backs"""
        info, fn = fr.info, fr.fn
        body = info.loops[header] if header else None
        pending = {start: [(st, startvals)]}
        exits, backs = [], []

        def edge(pred, succ, s, vals=None):
            if s.dead(): return
            if vals is None:
                vals = [self.val(fr, dict(I.extra)[pred], I.ty) for I in fn.blocks[succ] if I.op == 'phi']
            if header and succ == header:
                backs.append((s, vals)); return
            if header and succ not in body:
                exits.append((pred, succ, s, vals)); return
            pending.setdefault(succ, []).append((s, vals))

        for b in info.rpo:
            if header and b not in body: continue
            if b not in pending: continue
            inn = info.inner[b]
            if inn != header:
                # only loop headers directly below are entered here
                if info.loops.get(b) is not None and info.parent[b] == header:
                    m = self.merge(pending.pop(b))
                    if m is None: continue
                    for (p2, s2, st2, v2) in self.handle_loop(fr, b, m[0], m[1]):
                        edge(p2, s2, st2, v2)
                continue
            if b == header:
                s, vals = pending.pop(b)[0]
            else:
                m = self.merge(pending.pop(b))
                if m is None: continue
                s, vals = m
            s = s.copy()
            i = 0
            for I in fn.blocks[b]:
                if I.op != 'phi': break
                fr.env[I.res] = vals[i]; i += 1
            self.run_block(fr, b, s, i, edge)
        if header: return exits, backs
        return exits

    def run_block(self, fr, b, st, start, edge):
        fn = fr.fn
        for n, I in enumerate(fn.blocks[b][start:], start):
            op = I.op
            if op == 'br':
                if I.extra is None:
                    edge(b, I.a[0], st)
                else:
                    c = self.val(fr, I.extra, Ty('int', 1))
                    if isinstance(c, Undef): raise Unsupported('branch on undef')
                    if I.a[0] == I.a[1]: edge(b, I.a[0], st); return
                    for cc, tgt in ((c, I.a[0]), (mk_not(c), I.a[1])):
                        if is_f(cc): continue
                        s2 = st.copy().assume(cc)
                        edge(b, tgt, s2)
                return
            if op == 'switch':
                v, d, cs = I.extra
                x = self.val(fr, v, I.ty)
                neg = []
                by = {}
                for c, l in cs:
                    y = self.val(fr, c, I.ty)
                    e = self.icmp('eq', x, y, I.ty)
                    by.setdefault(l, []).append(e)
                    neg.append(mk_not(e))
                for l, es in by.items():
                    if l == d: continue
                    c = mk_or(*es)
                    if is_f(c): continue
                    edge(b, l, st.copy().assume(c))
                rest = mk_and(*neg)
                if d in by: rest = mk_or(rest, *by[d])
                if not is_f(rest): edge(b, d, st.copy().assume(rest))
                return
            if op == 'ret':
                fr.rets.append((st, [self.val(fr, I.a[0], I.ty)] if I.a else []))
                return
            if op == 'unreachable':
                return
            if op == 'resume': return
            if op in ('call', 'invoke'):
                path = '%s/%s.%d' % (fr.path, b, n)
                nthrow = len(self.throws)
                s2, v = self.call(fr, I, st, path)
                if op == 'invoke' and len(self.throws) > nthrow: self.uncaught(fr, I)
                if s2 is None: return       # does not return
                st = s2
                if I.res: fr.env[I.res] = v
                if op == 'invoke':
                    edge(b, I.extra[1], st)
                    return
                continue
            if op == 'landingpad': return
            v = self.instr(fr, I, st, '%s/%s.%d' % (fr.path, b, n))
            if I.res: fr.env[I.res] = v

    def uncaught(self, fr, I):
        """an exception that may leave this call is not caught here (paths through catch blocks are not followed)"""
        pad = fr.fn.blocks.get(I.extra[2], [])
        if any(x.op == 'landingpad' and x.extra for x in pad) and not any(x.op == 'call' and 'terminate' in str(x.extra[0]) for x in pad):
            raise Unsupported('an exception may be caught in %s' % fr.fn.name)

    # ------------------------------------------------------------ values
    def val(self, fr, v, ty):
        k = v[0]
        if k == 'loc':
            if v[1] not in fr.env: raise Unsupported('undefined value %s in %s' % (v[1], fr.fn.name))
            return fr.env[v[1]]
        ty = self.mod.resolve(ty)
        if k == 'int':
            if ty.a == 1: return T if v[1] else F
            if ty.a in self.bv: return z3.BitVecVal(v[1], ty.a)
            return icst(v[1])
        if k == 'fp': return fconst(v[1])
        if k == 'null': return NULL
        if k == 'undef':
            if ty.k == 'struct': return Agg([self.val(fr, ('undef',), t) for t in ty.a])
            if ty.k == 'arr': return Agg([self.val(fr, ('undef',), ty.b) for _ in range(ty.a)])
            return UNDEF
        if k == 'zero':
            if ty.k == 'struct': return Agg([self.val(fr, ('zero',), t) for t in ty.a])
            if ty.k == 'arr': return Agg([self.val(fr, ('zero',), ty.b) for _ in range(ty.a)])
            if ty.k == 'fp': return ZERO
            if ty.k == 'ptr': return NULL
            return self.val(fr, ('int', 0), ty)
        if k == 'agg': return Agg([self.val(fr, x, t) for t, x in v[1]])
        if k == 'glob': return self.global_ptr(v[1])
        if k == 'cgep':
            return self.gep(fr, v[1], v[2])
        if k == 'meta': return None
        if k == 'ccast': return self.cast(v[1], self.val(fr, v[3], v[2]), v[2], v[4])
        raise Unsupported('operand %s' % (v,))

    def global_ptr(self, name):
        if name not in self.regions:
            self.region(Region(name, None, check=False))
            self.read_global(name)
        return Ptr(name, (), icst(0))

    def read_global(self, name):
        """contents of a constant object"""
        t = self.mod._gtext.get(name)
        if t is None or not re.match(r'(\w+ )*constant ', t) or 'external' in t.split('constant')[0]: return
        try:
            p = ir.P(ir.tokenize(t[re.match(r'(\w+ )*constant ', t).end():]), self.mod)
            ty = p.type(); v = p.value(ty)
        except (Unsupported, IndexError): return
        reg = self.regions[name]
        rt = self.mod.resolve(ty)
        flat = {}

        def walk(ty, v, off):
            ty = self.mod.resolve(ty)
            if ty.k == 'struct':
                offs, _ = self.mod.struct_layout(ty)
                for i, (o, t1) in enumerate(zip(offs, ty.a)): walk(t1, v[1][i][1] if v[0] == 'agg' else v, off + o)
            elif ty.k == 'arr':
                if v[0] == 'cstr':
                    bs = re.sub(r'\\([0-9A-Fa-f]{2})', lambda x: chr(int(x.group(1), 16)), v[1][2:-1])
                    for i, ch in enumerate(bs): flat[off + i] = (ty.b, ('int', ord(ch)))
                    return
                es = self.mod.size(ty.b)
                for i in range(ty.a): walk(ty.b, v[1][i][1] if v[0] == 'agg' else v, off + i * es)
            else: flat[off] = (ty, v)
        if rt.k == 'arr' and rt.a > 4096: return
        walk(ty, v, 0)
        class Fr: env = {}
        def value(off):
            ty, v = flat[off]
            return self.val(Fr, v, ty)
        if rt.k == 'arr':
            es = self.mod.size(rt.b)
            reg.elem, reg.length, reg.check = es, icst(rt.a), True
            for f in sorted(set(o % es for o in flat)):
                def fn(i, f=f):
                    r = None
                    for j in reversed(range(rt.a)):
                        if j * es + f not in flat: continue
                        x = value(j * es + f)
                        r = x if r is None else vite(ieq(i, icst(j)), x, r)
                    return r
                reg.fields[f] = fn
        else:
            for o in flat: reg.fields[o] = lambda *ix, o=o: value(o)
        self.read_only.add(name)

    def gep(self, fr, bt, ops):
        p = self.val(fr, ops[0][1], ops[0][0])
        off = icst(0)
        t = bt
        for n, (it, iv) in enumerate(ops[1:]):
            i = self.val(fr, iv, it)
            if isinstance(i, Undef): raise Unsupported('gep undef')
            if z3.is_bv(i): i = norm(z3.BV2Int(i, True)) if const_bv(i) is None else icst(const_bv(i, True))
            if n == 0:
                off = iadd(off, imul(icst(self.mod.size(t)), i))
            else:
                t = self.mod.resolve(t)
                if t.k == 'struct':
                    j = const_of(i)
                    offs, _ = self.mod.struct_layout(t)
                    off = iadd(off, icst(offs[j])); t = t.a[j]
                elif t.k == 'arr':
                    t = t.b
                    off = iadd(off, imul(icst(self.mod.size(t)), i))
                else: raise Unsupported('gep into %r' % t)
        return padd_ptr(p, off)

    def icmp(self, pred, a, b, ty):
        if isinstance(a, (Ptr, Choice)) or isinstance(b, (Ptr, Choice)): return self.pcmp(pred, a, b)
        if isinstance(a, Undef) or isinstance(b, Undef): raise Unsupported('icmp undef')
        if z3.is_bool(a):
            e = mk_ite(a, b, mk_not(b))
            if pred == 'eq': return e
            if pred == 'ne': return mk_not(e)
            raise Unsupported('bool icmp ' + pred)
        if z3.is_bv(a):
            f = {'eq': lambda: a == b, 'ne': lambda: a != b, 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b), 'ugt': lambda: z3.UGT(a, b),
                 'uge': lambda: z3.UGE(a, b), 'slt': lambda: a < b, 'sle': lambda: a <= b, 'sgt': lambda: a > b, 'sge': lambda: a >= b}[pred]()
            return z3.simplify(f) if z3.is_bv_value(a) and z3.is_bv_value(b) else f
        if pred == 'eq': return ieq(a, b)
        if pred == 'ne': return mk_not(ieq(a, b))
        if pred[0] == 'u':
            w = ty.a
            ca, cb = const_of(a), const_of(b)
            a, b = self.uns(a, w), self.uns(b, w)
        op = pred[1:]
        if op == 'lt': return ilt(a, b)
        if op == 'le': return ile(a, b)
        if op == 'gt': return ilt(b, a)
        if op == 'ge': return ile(b, a)
        raise Unsupported('icmp ' + pred)

    def uns(self, a, w):
        """canonical unsigned value of a (values are kept in (-2^w, 2^w))"""
        c = const_of(a)
        if c is not None: return icst(c % (1 << w))
        if self.known_nonneg(a): return a
        return z3.If(norm(a) >= 0, norm(a), norm(a) + z3.IntVal(1 << w))

    def known_nonneg(self, a):
        for m, c in poly(a).items():
            if c < 0: return False
            for x in m:
                if not self.atom_nonneg(TM._atoms[x]): return False
        return True

    def atom_nonneg(self, x):
        if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = x.decl().name()
            if n in self.nonneg_names: return True
            return n.startswith('k!') or n.startswith('dv.')
        if x.decl().kind() == z3.Z3_OP_ITE:
            return self.known_nonneg(x.arg(1)) and self.known_nonneg(x.arg(2))
        if x.decl().kind() in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
            return x.decl().kind() == z3.Z3_OP_MOD or self.known_nonneg(x.arg(0))
        return False

    nonneg_names = set()

    def pcmp(self, pred, a, b):
        if not isinstance(a, (Ptr, Choice)) or not isinstance(b, (Ptr, Choice)): raise Unsupported('pointer compared with integer')
        cs = []
        for c1, p in alts(a):
            for c2, q in alts(b):
                c = mk_and(c1, c2)
                if is_f(c): continue
                if p.reg == q.reg:
                    same = mk_and(*[ieq(x, y) for x, y in zip(p.fam, q.fam)])
                    if pred == 'eq': r = mk_and(same, ieq(p.off, q.off))
                    elif pred == 'ne': r = mk_or(mk_not(same), mk_not(ieq(p.off, q.off)))
                    else: r = self.icmp('s' + pred[1:], p.off, q.off, Ty('int', 64))
                else:
                    if pred == 'eq': r = F
                    elif pred == 'ne': r = T
                    elif p.reg == 'NULL' or q.reg == 'NULL':
                        # null compares below every object
                        pn = p.reg == 'NULL'
                        r = {'ult': pn, 'ule': pn, 'ugt': not pn, 'uge': not pn}[pred]
                        r = T if r else F
                    else:
                        r = z3.Const('ptrcmp!%s!%s' % (p.reg, q.reg), z3.BoolSort())
                cs.append((c, r))
        r = cs[-1][1]
        for c, x in cs[-2::-1]: r = mk_ite(c, x, r)
        return r

    def cast(self, op, v, t1, t2):
        t1, t2 = self.mod.resolve(t1), self.mod.resolve(t2)
        if isinstance(v, Undef): return UNDEF
        if op in ('zext', 'sext', 'trunc'):
            w1, w2 = t1.a, t2.a
            k2 = 'bool' if w2 == 1 else ('bv' if w2 in self.bv else 'int')
            if z3.is_bool(v):
                if k2 == 'bv': return z3.If(v, z3.BitVecVal(1 if op == 'zext' else -1, w2), z3.BitVecVal(0, w2)) if not (is_t(v) or is_f(v)) else z3.BitVecVal((1 if op == 'zext' else -1) if is_t(v) else 0, w2)
                return iite(v, icst(1 if op == 'zext' else -1), icst(0))
            if z3.is_bv(v):
                if k2 == 'bool': return z3.simplify(z3.Extract(0, 0, v) == 1)
                if k2 == 'bv':
                    if op == 'zext': return z3.simplify(z3.ZeroExt(w2 - w1, v))
                    if op == 'sext': return z3.simplify(z3.SignExt(w2 - w1, v))
                    return z3.simplify(z3.Extract(w2 - 1, 0, v))
                c = const_bv(v, op == 'sext')
                if c is not None: return icst(c)
                if op == 'trunc': raise Unsupported('trunc bv->int')
                e = z3.BV2Int(v, op == 'sext')
                return norm(e)
            # int
            if k2 == 'bool':
                return ieq(imod(v, icst(2)), icst(1))
            if k2 == 'bv':
                c = const_of(v)
                if c is not None: return z3.BitVecVal(c, w2)
                return z3.Int2BV(norm(v), w2)
            if op == 'zext':
                if w1 in (16, 32) and any(len(x) > 1 for x in poly(v)):
                    # a product may leave the range of its type: then it wraps
                    k = 1 << w1
                    return iite(mk_and(ilt(icst(-k), v), ilt(v, icst(k))), self.uns(v, w1), norm(norm(v) % k))
                return self.uns(v, w1)
            if op == 'sext': return v
            if getattr(self, 'exact_trunc', False):
                c = const_of(v)
                k = 1 << w2
                if c is not None: return icst(c % k) if not -k < c < k else icst(c)
                return iite(mk_and(ilt(icst(-k), v), ilt(v, icst(k))), v, norm(v % k))
            # trunc int -> int: assumed value preserving
            self.assumptions.add('integer truncations i%d->i%d on size/index/symbol values are value-preserving' % (w1, w2))
            c = const_of(v)
            if c is not None: return icst(c % (1 << w2))
            return v
        if op == 'fpext': return v
        if op == 'fptrunc':
            return v
        if op in ('uitofp', 'sitofp'):
            if z3.is_bool(v): return fite(v, fconst(1.0 if op == 'uitofp' else -1.0), ZERO)
            if z3.is_bv(v):
                c = const_bv(v, op == 'sitofp')
                if c is not None: return fconst(float(c))
                return FV(F, F, z3.ToReal(z3.BV2Int(v, op == 'sitofp')))
            if op == 'uitofp': v = self.uns(v, t1.a)
            c = const_of(v)
            if c is not None: return FV(F, F, rv(c))
            return FV(F, F, z3.ToReal(norm(v)))
        if op in ('fptoui', 'fptosi'):
            # truncation toward zero of a finite in-range value
            if z3.is_rational_value(v.v):
                q = v.v.as_fraction(); c = int(q)
                return icst(c) if t2.a not in self.bv else z3.BitVecVal(c, t2.a)
            e = z3.If(v.v >= 0, z3.ToInt(v.v), -z3.ToInt(-v.v))
            # ToInt(ToReal(x)) = x
            if z3.is_app(v.v) and v.v.decl().kind() == z3.Z3_OP_TO_REAL: e = v.v.arg(0)
            return norm(e)
        if op == 'ptrtoint': return PInt(v)
        if op == 'inttoptr':
            if isinstance(v, PInt): return v.p
            raise Unsupported('inttoptr')
        if op == 'bitcast':
            if t1.k == t2.k and repr(t1) == repr(t2): return v
            raise Unsupported('bitcast %r %r' % (t1, t2))
        raise Unsupported('cast ' + op)

    def binop(self, op, a, b, ty, flags, path, st):
        if isinstance(a, PInt) or isinstance(b, PInt):
            if isinstance(a, PInt) and isinstance(b, PInt) and op == 'sub': return self.pdiff(a.p, b.p)
            if op == 'add' and isinstance(a, PInt) and not isinstance(b, PInt): return PInt(padd_ptr(a.p, b))
            if op == 'add' and isinstance(b, PInt) and not isinstance(a, PInt): return PInt(padd_ptr(b.p, a))
            if op == 'sub' and isinstance(a, PInt) and not isinstance(b, PInt): return PInt(padd_ptr(a.p, imul(icst(-1), b)))
            raise Unsupported('pointer arithmetic ' + op)
        if isinstance(a, Undef) or isinstance(b, Undef): return UNDEF
        if op[0] == 'f':
            if op == 'fadd': return fadd(a, b)
            if op == 'fsub': return fsub(a, b)
            if op == 'fmul': return fmul(a, b)
            if op == 'fdiv': return fdiv(a, b)
            raise Unsupported(op)
        if z3.is_bool(a):
            if op == 'and': return mk_and(a, b)
            if op == 'or': return mk_or(a, b)
            if op in ('xor', 'add', 'sub'): return mk_ite(a, mk_not(b), b)
            raise Unsupported('bool ' + op)
        if z3.is_bv(a):
            f = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'udiv': lambda: z3.UDiv(a, b), 'sdiv': lambda: a / b,
                 'urem': lambda: z3.URem(a, b), 'srem': lambda: z3.SRem(a, b), 'shl': lambda: a << b, 'lshr': lambda: z3.LShR(a, b),
                 'ashr': lambda: a >> b, 'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b}[op]
            return z3.simplify(f())
        ca, cb = const_of(a), const_of(b)
        w = ty.a
        if op == 'add': return iadd(a, b)
        if op == 'sub': return isub(a, b)
        if op == 'mul': return imul(a, b)
        if op == 'shl':
            if cb is not None: return imul(a, icst(1 << cb))
            if ca == 1: return self.pow2(b, st)
            raise Unsupported('shl')
        if op in ('lshr', 'udiv', 'ashr', 'sdiv'):
            if op in ('lshr', 'ashr'):
                if cb is None: raise Unsupported('variable shift')
                d = icst(1 << cb)
            else: d = b
            if op in ('lshr', 'udiv'): a = self.uns(a, w)
            if op in ('sdiv', 'udiv') and cb is None:
                return idiv(a, d)
            if flags and 'exact' in flags:
                q = pdiv_const(poly(a), const_of(d))
                if q is not None: return expr(q)
            if op == 'sdiv' and not self.known_nonneg(a):
                q = pdiv_const(poly(a), const_of(d))
                if q is not None: return expr(q)
                return norm(z3.If(norm(a) >= 0, idiv(a, d), -idiv(imul(icst(-1), a), d)))
            return idiv(a, d)
        if op == 'urem': return imod(self.uns(a, w), b)
        if op == 'srem':
            if self.known_nonneg(a): return imod(a, b)
            raise Unsupported('srem')
        if op == 'and':
            if ca is not None: a, b, ca, cb = b, a, cb, ca
            if cb is not None:
                m = cb % (1 << w)
                if m & (m + 1) == 0: return imod(self.uns(a, w) if not self.known_nonneg(a) else a, icst(m + 1))     # low mask
                inv = (~m) % (1 << w)
                if inv & (inv + 1) == 0: return isub(a, imod(a, icst(inv + 1)))     # high mask
                low = m & -m
                if (m // low) & (m // low + 1) == 0:    # contiguous mask
                    a = self.uns(a, w) if not self.known_nonneg(a) else a
                    return isub(imod(a, icst(m + low)), imod(a, icst(low)))
            raise Unsupported('int and')
        if op == 'or':
            if flags and 'disjoint' in flags: return iadd(a, b)
            if cb == 1 and all(v % 2 == 0 for v in poly(a).values()): return iadd(a, b)
            if cb is not None and cb > 0:
                n = cb.bit_length()
                if all(v % (1 << n) == 0 for v in poly(a).values()): return iadd(a, b)
            raise Unsupported('int or')
        if op == 'xor':
            if cb == -1: return isub(icst(-1), a)
            if cb is not None and cb > 0 and (cb & (cb + 1)) == 0 and self.below(a, cb + 1): return isub(icst(cb), a)
            raise Unsupported('int xor')
        raise Unsupported('int ' + op)

    def below(self, a, n):
        p = poly(a)
        if len(p) == 1:
            (m, c), = p.items()
            if c == 1 and len(m) == 1:
                x = TM._atoms[m[0]]
                return x.decl().name().startswith('clz!')
        return False

    POW2 = z3.Function('pow2', z3.IntSort(), z3.IntSort())

    def pow2(self, e, st):
        return norm(Machine.POW2(norm(e)))

    def pdiff(self, a, b):
        r = None
        for c1, p in alts(a):
            for c2, q in alts(b):
                c = mk_and(c1, c2)
                if is_f(c): continue
                if p.reg == q.reg: x = isub(p.off, q.off)
                else:
                    x = None
                    if not self.discover: pass
                    x = norm(z3.Int('ptrdiff!%s!%s' % (p.reg, q.reg)))
                r = x if r is None else iite(c, x, r)
        return r

    def instr(self, fr, I, st, path):
        op = I.op
        from ir import BINS, CASTS
        V = lambda v, t: self.val(fr, v, t)
        if op in BINS:
            if self.mod.resolve(I.ty).k == 'vec': raise Unsupported('vector op')
            return self.binop(op, V(I.a[0], I.ty), V(I.a[1], I.ty), I.ty, I.extra, path, st)
        if op == 'fneg': return fneg(V(I.a[0], I.ty))
        if op in CASTS:
            a = V(I.a[0], I.extra)
            if op in ('fptoui', 'fptosi') and isinstance(a, FV):
                w = self.mod.resolve(I.ty).a
                lo, hi = (-1, 1 << w) if op == 'fptoui' else (-(1 << (w - 1)) - 1, 1 << (w - 1))
                self.obligation('conversion to integer in range: %s' % I.text.strip()[:50], 'arith', st, mk_and(fin(a), a.v > lo, a.v < hi))
            return self.cast(op, a, I.extra, I.ty)
        if op == 'icmp':
            pred, t = I.extra
            a, b = V(I.a[0], t), V(I.a[1], t)
            if isinstance(a, PInt) and isinstance(b, PInt): return self.pcmp(pred, a.p, b.p)
            if isinstance(a, PInt) and const_of(b) == 0: return self.pcmp(pred, a.p, NULL)
            return self.icmp(pred, a, b, self.mod.resolve(t))
        if op == 'fcmp':
            pred, t = I.extra
            return fcmp(pred, V(I.a[0], t), V(I.a[1], t))
        if op == 'select':
            c = V(I.a[0], Ty('int', 1))
            if not z3.is_expr(c): raise Unsupported('select')
            return vite(c, V(I.a[1], I.ty), V(I.a[2], I.ty))
        if op == 'load':
            if I.extra == 'atomic': raise Unsupported('atomic')
            return self.load(st, V(I.a[0], PTR), I.ty, I.text.strip()[:60])
        if op == 'store':
            self.store(st, V(I.a[1], PTR), V(I.a[0], I.ty), I.ty, I.text.strip()[:60])
            return None
        if op == 'getelementptr': return self.gep(fr, I.extra[0], I.extra[1])
        if op == 'alloca':
            name = 'alloca!%s' % path
            ty = self.mod.resolve(I.ty)
            if ty.k == 'arr': r = Region(name, self.mod.size(ty.b), icst(ty.a), arity=len(st.ctx))
            elif I.extra is not None: raise Unsupported('vla')
            else: r = Region(name, None, arity=len(st.ctx))
            r.ty = ty
            self.region(r)
            return Ptr(name, st.ctx, icst(0))
        if op == 'extractvalue':
            v = V(I.a[0], I.extra[0])
            for i in I.extra[1]:
                if isinstance(v, Undef): return UNDEF
                v = v.vals[i]
            return v
        if op == 'insertvalue':
            v = V(I.a[0], I.extra[0])
            w = V(I.a[1], None) if I.a[1][0] == 'loc' else V(I.a[1], self.agg_elem_ty(I.extra[0], I.extra[1]))

            def ins(x, idx):
                if not idx: return w
                vals = list(x.vals)
                vals[idx[0]] = ins(vals[idx[0]], idx[1:])
                return Agg(vals)
            return ins(v, I.extra[1])
        if op == 'freeze': return V(I.a[0], I.ty)
        if op == 'fence': return None
        raise Unsupported('instruction ' + I.text)

    def agg_elem_ty(self, t, idx):
        for i in idx:
            t = self.mod.resolve(t)
            t = t.a[i] if t.k == 'struct' else t.b
        return t

    # ------------------------------------------------------------ calls
    def call(self, fr, I, st, path):
        callee = I.extra[0]
        args = [None if t.k == 'metadata' else self.val(fr, v, t) for t, v in I.a]
        if callee[0] != 'glob':
            if callee[0] != 'loc': raise Unsupported('indirect call in ' + fr.fn.name)
            return self.call_indirect(fr, self.val(fr, callee, PTR), args, I, st, path)
        return self.call_named(callee[1], args, I, st, path)

    def call_indirect(self, fr, p, args, I, st, path):
        """call through a function pointer: every feasible target, merged afterwards"""
        al = self.resolve_alts(st, p)
        outs = []
        for c, q in al:
            if not (q.reg.startswith('@') or q.reg.startswith('fn!')) or const_of(q.off) != 0: raise Unsupported('indirect call through %r in %s' % (q, fr.fn.name))
            s = st.copy() if len(al) > 1 else st
            if len(al) > 1:
                s = s.assume(c)
                if s.dead(): continue
            s2, v = self.call_named(q.reg, args, I, s, path)
            if s2 is not None: outs.append((s2, [v] if v is not None else []))
        if not outs: return None, None
        if len(outs) == 1: return outs[0][0], (outs[0][1][0] if outs[0][1] else None)
        m = self.merge(outs)
        if m is None: return None, None
        return m[0], (m[1][0] if m[1] else None)

    def call_named(self, name, args, I, st, path):
        import externs
        dem = externs.demangle(name)
        for rx, h in self.contracts:
            if rx.search(dem):
                r = h(self, name, args, I, st, path)
                if r is not NotImplemented: return r
        h = externs.lookup(name, dem)
        if h is not None:
            r = h(self, name, args, I, st, path)
            if r is not NotImplemented: return r
        if self.mod.has(name):
            return self.run_function(name, args, st, path)
        raise Unsupported('call to external function ' + dem)

    # ------------------------------------------------------------ loops
    def handle_loop(self, fr, h, st0, init):
        path = fr.path + '@' + h
        ks = st0.ctx
        k = z3.Int('k!' + path)
        info = self.loopinfo.setdefault(path, LoopInfo())
        lc = LoopCtx(self, fr, h, st0, init, path, ks, k, info)
        for _ in range(12):
            m = self.checkpoint()
            self.discover += 1
            try:
                lc.run_pass()
            finally:
                self.discover -= 1
            changed = lc.update()
            if not changed: break
            self.rollback(m)
        else:
            raise Unsupported('loop discovery does not stabilise at ' + path)
        if self.discover:
            return lc.exits_out()
        self.rollback(m)
        cands = lc.candidates()
        key = path
        cands = [c for c in cands]
        dropped = set()
        # base case filter
        live = []
        for c in cands:
            if c.name in dropped: continue
            r = lc.check_base(c)
            if r == 'proved': live.append(c)
            elif c.kind == 'required': raise Unsupported('required invariant %s fails initially' % c.name)
        retries = 0
        for it in range(30):
            m = self.checkpoint()
            self.active.append(k)
            lc.install(live)
            lc.run_pass()
            if lc.update():
                # pointer alternatives that are ruled out only in this mode: take the sharper summary
                retries += 1
                if retries > 4: raise Unsupported('loop info changed during verification pass')
                self.active.pop()
                self.rollback(m)
                continue
            bad = []
            todo = list(live)
            # iterate to a stable subset using the facts installed (optimistic), dropping failures
            for c in todo:
                r = lc.check_step(c)
                if r != 'proved': bad.append((c, r))
            self.active.pop()
            if not bad: break
            if any(c.kind == 'required' for c, _ in bad):
                raise Unsupported('required invariant of loop %s not inductive: %s' % (path, [c.name for c, _ in bad]))
            if DEBUG: print('  loop %s drops %s' % (path[-40:], [(c.name, r) for c, r in bad]))
            self.rollback(m)
            badn = {id(c) for c, _ in bad}
            live = [c for c in live if id(c) not in badn]
        if DEBUG: print('  loop %s keeps %s' % (path[-40:], [c.name for c in live]))
        lc.lift(live)
        for c in live:
            self.obl.append(dict(name='%s %s base' % (path, c.name), kind='invariant', status='proved', s=0, model=None, goal=None))
            self.obl.append(dict(name='%s %s step' % (path, c.name), kind='invariant', status='proved', s=0, model=None, goal=None))
        # make the facts available for all iterations
        return lc.exits_out()


class Rewriter:
    """replaces (P*x + y) div P and mod P by x and y where the formulas imply 0 <= y < P"""

    def __init__(self, m, forms):
        self.m, self.forms, self.solver, self.n = m, forms, None, 0
        self.rep, self.tried = {}, set()

    def todo(self, f):
        return bool(divmod_apps(f))

    def solve(self, goal, out):
        if self.solver is None:
            self.solver = z3.Solver(); self.solver.set('timeout', 500)
            for f in self.forms:
                for c in conjuncts(f):
                    if small_int(c): self.solver.add(c)
        for f in out[self.n:]:
            if small_int(f): self.solver.add(f)
        self.n = len(out)
        self.m.stats['queries'] += 1
        self.solver.push(); self.solver.add(mk_not(goal))
        r = self.solver.check()
        self.solver.pop()
        return r == z3.unsat

    def rewrite(self, f, out):
        for _ in range(6):
            pairs = []
            for a in divmod_apps(f):
                i = a.get_id()
                if i not in self.tried:
                    self.tried.add(i)
                    sp = split_div(a.arg(0), a.arg(1))
                    if sp is not None:
                        qe, re_ = sp
                        b = a.arg(1)
                        if self.solve(ilt(icst(0), b) if re_.decl().eq(TM.MOD) and re_.arg(1).eq(b) else mk_and(ile(icst(0), re_), ilt(re_, b)), out):
                            self.rep[i] = (a, qe if a.decl().eq(TM.DIV) else re_)
                if i in self.rep: pairs.append(self.rep[i])
            if not pairs: return f
            f = renorm(z3.substitute(f, *pairs))
        return f


_hd = {}


def has_decl(f, ids):
    """does f contain an application of a function in ids?"""
    key = (f.get_id(), len(ids))
    r = _hd.get(key)
    if r is None:
        TM._keep.append(f)
        seen, st, r = set(), [f], False
        while st:
            x = st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_app(x):
                if x.decl().get_id() in ids: r = True; break
                st.extend(x.children())
        _hd[key] = r
    return r


_dma, _small = {}, {}


def divmod_apps(f):
    i = f.get_id()
    r = _dma.get(i)
    if r is None:
        TM._keep.append(f)
        r = _dma[i] = [a for a in apps_in0(f) if a.decl().eq(TM.DIV) or a.decl().eq(TM.MOD)]
    return r


def split_div(a, b):
    pa, pb = poly(a), poly(b)
    if len(pb) != 1: return None
    quo, rest = {}, {}
    for mn, c in pa.items():
        x = pdiv_mono({mn: c}, pb)
        if x is None: rest[mn] = c
        else: quo = padd(quo, x)
    return (expr(quo), expr(rest)) if quo else None


def small_int(f):
    """comparison of integers, small enough for the quick range check"""
    i = f.get_id()
    r = _small.get(i)
    if r is None:
        TM._keep.append(f)
        n, ok, st = 0, True, [f]
        while st and ok:
            x = st.pop(); n += 1
            if n > 60 or x.sort().kind() == z3.Z3_REAL_SORT: ok = False
            if x.decl().eq(TM.DIV) or x.decl().eq(TM.MOD): ok = False
            st.extend(x.children())
        r = _small[i] = ok
    return r


_ren = {}


def renorm(f):
    """bring the integer terms of f into normal form again"""
    i = f.get_id()
    r = _ren.get(i)
    if r is not None: return r
    if f.num_args() == 0: r = f
    elif z3.is_int(f) and f.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
        ch = [renorm(c) for c in f.children()]
        k = f.decl().kind()
        r = ch[0]
        if k == z3.Z3_OP_UMINUS: r = isub(icst(0), r)
        for c in ch[1:]: r = imul(r, c) if k == z3.Z3_OP_MUL else iadd(r, c) if k == z3.Z3_OP_ADD else isub(r, c)
    elif z3.is_app(f):
        ch = [renorm(c) for c in f.children()]
        k = f.decl().kind()
        if k == z3.Z3_OP_AND: r = mk_and(*ch)
        elif k == z3.Z3_OP_OR: r = mk_or(*ch)
        elif k == z3.Z3_OP_NOT: r = mk_not(ch[0])
        elif f.decl().eq(TM.DIV): r = idiv(*ch)
        elif f.decl().eq(TM.MOD): r = imod(*ch)
        elif z3.is_bool(f) and f.num_args() == 2 and z3.is_int(ch[0]) and k in (z3.Z3_OP_LT, z3.Z3_OP_LE, z3.Z3_OP_GT, z3.Z3_OP_GE, z3.Z3_OP_EQ):
            r = {z3.Z3_OP_LT: lambda a, b: ilt(a, b), z3.Z3_OP_LE: lambda a, b: ile(a, b), z3.Z3_OP_GT: lambda a, b: ilt(b, a),
                 z3.Z3_OP_GE: lambda a, b: ile(b, a), z3.Z3_OP_EQ: lambda a, b: ieq(a, b)}[k](*ch)
        elif k == z3.Z3_OP_ITE and is_t(ch[0]): r = ch[1]
        elif k == z3.Z3_OP_ITE and is_f(ch[0]): r = ch[2]
        else: r = f.decl()(*ch)
    else: r = f
    TM._keep.extend((f, r))
    _ren[i] = r
    return r


class PInt:
    """integer value of a pointer"""
    __slots__ = ('p',)

    def __init__(self, p): self.p = p


def const_bv(v, signed=False):
    v = z3.simplify(v)
    if z3.is_bv_value(v): return v.as_signed_long() if signed else v.as_long()
    return None


def padd_ptr(p, o):
    if isinstance(p, Choice): return mk_choice([(c, q.add(o)) for c, q in p.alts])
    if isinstance(p, Undef): raise Unsupported('arith on undef pointer')
    return p.add(o)


def simp_or(rs):
    """or with the simplification (a&c)|(a&!c) -> a for the common if/else patterns"""
    if any(is_t(r) for r in rs): return T
    rs = [list(r.children()) if z3.is_and(r) else [r] for r in rs]
    changed = True
    while changed and len(rs) > 1:
        changed = False
        for i in range(len(rs)):
            for j in range(i + 1, len(rs)):
                A, B = {x.get_id(): x for x in rs[i]}, {x.get_id(): x for x in rs[j]}
                da, db = set(A) - set(B), set(B) - set(A)
                if not da: new = rs[i]
                elif not db: new = rs[j]
                elif len(da) == 1 and len(db) == 1:
                    x, y = A[next(iter(da))], B[next(iter(db))]
                    if mk_not(x).eq(y): new = [A[q] for q in A if q not in da]
                    else: continue
                elif len(da) == 1 and mk_not(A[next(iter(da))]).get_id() in db:
                    # (a&x) | (a&!x&r) -> a & (x | r)   keep as is but smaller
                    continue
                else: continue
                rs[i] = new; del rs[j]
                changed = True
                break
            if changed: break
    es = [mk_and(*r) for r in rs]
    if any(is_t(e) for e in es): return T
    return mk_or(*es)


_appcache = {}


def apps_in0(e):
    """uninterpreted applications (with args, or 0-ary constants having facts) inside e"""
    i = e.get_id()
    r = _appcache.get(i)
    if r is None:
        seen, r, stack = set(), [], [e]
        while stack:
            x = stack.pop()
            xi = x.get_id()
            if xi in seen: continue
            seen.add(xi)
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: r.append(x)
            stack.extend(x.children())
        _appcache[i] = r
        TM._keep.append(e)
    return r


class LoopCtx:
    def __init__(self, m, fr, h, st0, init, path, ks, k, info):
        self.m, self.fr, self.h, self.st0, self.init = m, fr, h, st0, init
        self.path, self.ks, self.k, self.info = path, ks, k, info
        self.phis = [I for I in fr.fn.blocks[h] if I.op == 'phi']
        self.Rd = z3.Function('R!' + path, *[z3.IntSort()] * (len(ks) + 1), z3.BoolSort())
        self.N = m.sym('N!' + path, 'int', ks)
        self.lifted = []
        m.nonneg_names = m.nonneg_names | {'N!' + path, 'k!' + path}

    # -- header state
    def header(self):
        m, ks, k = self.m, self.ks, self.k
        vals = []
        ctx = ks + (k,)
        for i, (I, v0) in enumerate(zip(self.phis, self.init)):
            d = self.info.ind.get(i, 'new')
            nm = 'phi!%s!%s' % (self.path, I.res)
            vals.append(self.hav(nm, v0, self.m.mod.resolve(I.ty), d, ctx, i))
        st = self.st0.copy()
        st.ctx = ctx
        R = self.Rd(*ctx)
        st.pc = self.st0.pc + (R,)
        self.hdr_cells = {}
        for key in list(self.info.mod):
            c0 = self.st0.mem.get(key) or m.initial.get(key)
            if c0 is None:
                # region first touched inside the loop: give it its initial cell
                c0 = m.make_initial(key, self.info.mod[key])
                m.initial[key] = c0
            reg = m.regions[key[0]]
            nm = 'mem!%s!%s!%d' % (self.path, key[0], key[1])
            if reg.elem is None and not reg.arity:
                v0 = c0.read((icst(0),))
                v = self.hav(nm, v0, None, self.info.memind.get(key, 'new'), ctx, key, kind=c0.kind)
                cell = Cell(c0.kind, FnBase([z3.Int('ix!0')], v, prev=None))
            elif c0.kind == 'ptr':
                descs = self.info.pdescs.get(key) if hasattr(self.info, 'pdescs') else None
                if descs is None: descs = []
                cell = Cell('ptr', LoopPtrBase(c0, [self.desc_at(d, k) for d in descs]))
            else:
                n = reg.arity + 1
                dom = [z3.IntSort()] * (len(ctx) + n)
                kd = c0.kind
                if kd == 'fp': ds = [z3.Function(nm + '.nan', *dom, z3.BoolSort()), z3.Function(nm + '.inf', *dom, z3.BoolSort()), z3.Function(nm + '.v', *dom, z3.RealSort())]
                elif kd == 'int': ds = [z3.Function(nm, *dom, z3.IntSort())]
                elif kd == 'bool': ds = [z3.Function(nm, *dom, z3.BoolSort())]
                else: ds = [z3.Function(nm, *dom, z3.BitVecSort(int(kd[2:])))]
                descs = self.info.descs.get(key) if hasattr(self.info, 'descs') else None
                cell = Cell(kd, UFBase(kd, ds, ctx, prev=c0, descs=[self.desc_at(d, k) for d in descs] if descs is not None else None))
            st.mem[key] = cell
            self.hdr_cells[key] = cell
        return st, vals

    def hav(self, nm, v0, ty, d, ctx, ident, kind=None):
        """header value of a phi (or scalar cell): induction form or fresh symbol"""
        m, k = self.m, self.k
        if isinstance(v0, (Ptr, Choice)):
            if isinstance(d, str) and d == 'inv': return v0
            if d is not None and not isinstance(d, str): return padd_ptr(v0, self.closed(d))
            if isinstance(v0, Choice):
                # the choice was made before the loop; all alternatives move by the same distance
                gs = {m.regions[q.reg].elem for _, q in v0.alts if q.reg in m.regions and q.reg != 'NULL'}
                g = self.info.stride.get(ident) or (gs.pop() or 1 if len(gs) == 1 else 1)
                return padd_ptr(v0, imul(icst(g), m.sym(nm, 'int', ctx)))
            g = self.info.stride.get(ident)
            if g is None:
                reg = m.regions.get(v0.reg)
                g = (reg.elem if reg and reg.elem else 1)
            u = m.sym(nm, 'int', ctx)
            return Ptr(v0.reg, v0.fam, iadd(v0.off, imul(icst(g), u)))
        if isinstance(v0, Undef):
            # nothing is known before the first iteration
            if ty is None or ty.k not in ('fp', 'int'): raise Unsupported('undef loop value at ' + nm)
            return m.sym(nm, m.kind_of(ty), ctx)
        if isinstance(v0, PInt): raise Unsupported('pointer-integer loop value')
        if isinstance(d, str) and d == 'inv': return v0
        if isinstance(v0, FV): return m.sym(nm, 'fp', ctx)
        if isinstance(v0, Agg): raise Unsupported('aggregate phi')
        if z3.is_bool(v0): return m.sym(nm, 'bool', ctx)
        if z3.is_bv(v0):
            return m.sym(nm, 'bv%d' % v0.size(), ctx)
        if d is not None and not isinstance(d, str): return iadd(v0, self.closed(d))
        return m.sym(nm, 'int', ctx)

    def cond_step(self, dl):
        """step that depends on the counter by one comparison with a constant: ('cnt', kind, c, step when it holds, step otherwise)"""
        kid = self.k.get_id()
        rest, ite = {}, None
        for mm, c in poly(dl).items():
            xs = [x for x in mm if z3.is_expr(TM._atoms[x]) and TM._atoms[x].decl().kind() == z3.Z3_OP_ITE]
            if not xs: rest[mm] = c; continue
            if ite is not None or len(mm) != 1: return None
            ite = (TM._atoms[xs[0]], c)
        if ite is None: return None
        x, co = ite
        r = expr(rest)
        A, B = iadd(r, imul(icst(co), norm(x.arg(1)))), iadd(r, imul(icst(co), norm(x.arg(2))))
        if kid in consts_in(A) or kid in consts_in(B): return None
        hs = {a.decl().name() for a in apps_in(A) + apps_in(B)}
        if any(n.startswith(('phi!' + self.path, 'mem!' + self.path)) for n in hs): return None
        c = x.arg(0)
        while z3.is_not(c): c, A, B = c.arg(0), B, A
        kd = c.decl().kind()
        if c.num_args() != 2 or not z3.is_int(c.arg(0)): return None
        d = padd(poly(c.arg(0)), poly(c.arg(1)), -1)       # lhs - rhs
        kc = d.pop((kid,), 0)
        if kc not in (1, -1) or set(d) - {()}: return None
        t = -d.get((), 0) * kc                            # k <rel> t
        rel = {z3.Z3_OP_EQ: '=', z3.Z3_OP_LE: '<=', z3.Z3_OP_LT: '<', z3.Z3_OP_GE: '>=', z3.Z3_OP_GT: '>'}.get(kd)
        if rel is None: return None
        if kc < 0: rel = {'=': '=', '<=': '>=', '<': '>', '>=': '<=', '>': '<'}[rel]
        if rel == '>=': rel, A, B = '<', B, A
        elif rel == '>': rel, t, A, B = '<', t + 1, B, A
        elif rel == '<=': rel, t = '<', t + 1
        if t < 0 or rel == '<' and t < 1: return None
        if rel == '<' and t == 1: rel, t = '=', 0
        return ('cnt', rel, t, A, B)

    def closed(self, d):
        """sum of the steps of the first k iterations"""
        if isinstance(d, tuple):
            _, rel, t, A, B = d
            k = self.k
            n = z3.If(norm(icst(t)) < norm(k), z3.IntVal(1), z3.IntVal(0)) if rel == '=' else z3.If(k < t, k, z3.IntVal(t))
            n = expr({(TM._atom_id(n),): 1})
            return iadd(imul(A, n), imul(B, isub(k, n)))
        return imul(d, self.k)

    def desc_at(self, d, K):
        """loop-level write descriptor for iterations 0..K-1"""
        kp = z3.Int('kp!' + self.path)
        pr = [(self.k, kp)]
        dd = d.subst(pr)
        return Desc((kp,) + dd.vars, mk_and(ile(icst(0), kp), ilt(kp, K), dd.guard), dd.idx, dd.val)

    # -- one pass over the body
    def run_pass(self):
        m = self.m
        st, vals = self.header()
        self.hst, self.hvals = st, vals
        formals = list(self.ks) + [self.k]
        R = self.Rd(*formals)
        m.add_fact([self.Rd], formals, mk_imp(R, mk_and(ile(icst(0), self.k), *self.st0.pc)))
        exits, backs = m.run_region(self.fr, self.h, self.h, st.copy(), vals)
        self.exits = exits
        self.back = m.merge(backs)
        if self.back is not None:
            bst = self.back[0]
            ids = {x.get_id() for x in st.pc}
            cont = mk_and(*[x for x in bst.pc if x.get_id() not in ids])
        else:
            cont = F
        self.cont = cont
        m.rinfo[self.Rd.get_id()] = dict(R=self.Rd, cont=cont, formals=formals)
        TM._keep.append(self.Rd)
        ids = {x.get_id() for x in st.pc}
        self.exitc = [mk_and(*[x for x in e[2].pc if x.get_id() not in ids]) for e in exits]

    def update(self):
        """update the loop information from the last pass; True if something changed"""
        info, m, k = self.info, self.m, self.k
        ch = False
        kid = k.get_id()
        if self.back is None:
            return False
        bst, bvals = self.back
        for i, (hv, bv, v0) in enumerate(zip(self.hvals, bvals, self.init)):
            ch |= self.upd_ind(info.ind, i, hv, bv, v0, kid)
        for key, cell in bst.mem.items():
            h = self.hst.mem.get(key) or m.initial.get(key)
            if cell is not h and key not in info.mod:
                # regions allocated inside the loop (family indexed by k) need no header version
                # unless they are read in later iterations; they are treated alike
                info.mod[key] = cell.kind
                ch = True
        if ch: return True
        if not hasattr(info, 'descs'): info.descs, info.pdescs = {}, {}
        for key in info.mod:
            reg = m.regions[key[0]]
            h = self.hdr_cells.get(key)
            c = bst.mem.get(key, h)
            if h is None: ch = True; continue
            if reg.elem is None and not reg.arity:
                ch |= self.upd_ind(info.memind, key, h.read((icst(0),)), c.read((icst(0),)), (self.st0.mem.get(key) or m.initial[key]).read((icst(0),)), kid)
            else:
                w = writes_since(c, h)
                if w is not None:
                    w = [self.resolve_desc(d, key) for d in w]
                    # remember only descs relative to this path
                tgt = info.pdescs if c.kind == 'ptr' else info.descs
                new = None if w is None else [repr_desc(d) for d in w]
                old = tgt.get(('sig', key), 'none')
                if new != old:
                    tgt[('sig', key)] = new
                    tgt[key] = w
                    ch = True
        return ch

    def upd_ind(self, store, i, hv, bv, v0, kid):
        cur = store.get(i, 'new')
        if cur is None: return False
        nd = None
        if isinstance(hv, FV) or z3.is_expr(hv) and not z3.is_int(hv):
            nd = 'inv' if same_syntactic(hv, bv) else None
        elif isinstance(hv, Ptr):
            if isinstance(bv, Ptr) and bv.reg == hv.reg and all(a.eq(b) for a, b in zip(bv.fam, hv.fam)):
                dl = isub(bv.off, hv.off)
                if kid not in consts_in(dl):
                    nd = 'inv' if const_of(dl) == 0 else dl
                elif self.cond_step(dl) is not None:
                    nd = self.cond_step(dl)
                else:
                    g = self.info.stride.get(i)
                    reg = self.m.regions.get(hv.reg)
                    e = g or (reg.elem if reg and reg.elem else 1)
                    if any(v % e for v in poly(dl).values()):
                        self.info.stride[i] = 1
                        return e != 1
            else:
                raise Unsupported('loop pointer changes region: %r -> %r' % (hv, bv))
        elif isinstance(hv, Choice):
            if same_choice(hv, bv): nd = 'inv'
            else:
                ok = isinstance(bv, Choice) and len(hv.alts) == len(bv.alts) and \
                    all(c.eq(d) and p.reg == q.reg and len(p.fam) == len(q.fam) and all(a.eq(b) for a, b in zip(p.fam, q.fam)) for (c, p), (d, q) in zip(hv.alts, bv.alts))
                dl = {isub(q.off, p.off) for (c, p), (d, q) in zip(hv.alts, bv.alts)} if ok else ()
                ids = {x.get_id() for x in dl}
                dl = dl.pop() if len(ids) == 1 else None
                if dl is None or kid in consts_in(dl): raise Unsupported('choice pointer in loop: %r -> %r' % (hv, bv))
                nd = 'inv' if const_of(dl) == 0 else dl
        elif z3.is_expr(hv) and z3.is_int(hv):
            if isinstance(bv, (Ptr, Choice, Undef)): raise Unsupported('kind change in loop')
            dl = isub(bv, hv)
            if kid not in consts_in(dl): nd = 'inv' if const_of(dl) == 0 else dl
            else: nd = self.cond_step(dl)
        if isinstance(cur, str) and cur == 'new':
            # other variables of the loop may be in closed form in the next pass
            store[i] = nd if nd is not None else 'again'
            return True
        if isinstance(cur, str) and cur == 'again':
            store[i] = nd
            return nd is not None
        if nd is None:
            store[i] = None
            return True
        if isinstance(cur, str) or isinstance(nd, str):
            if cur is nd or (isinstance(cur, str) and isinstance(nd, str) and cur == nd): return False
            store[i] = None
            return True
        if isinstance(cur, tuple) or isinstance(nd, tuple):
            if isinstance(cur, tuple) and isinstance(nd, tuple) and cur[1:3] == nd[1:3] and cur[3].eq(nd[3]) and cur[4].eq(nd[4]): return False
            store[i] = None
            return True
        if not cur.eq(nd):
            store[i] = None
            return True
        return False

    def resolve_desc(self, d, key):
        """rewrite reads of header versions of summarised cells to reads of the old cells"""
        return Desc(d.vars, self.resolve_val(d.guard), [self.under(d.guard, i) for i in d.idx], self.resolve_val(d.val))

    def under(self, guard, i):
        """simplify the choices in an index by the guard of the write"""
        kid = self.k.get_id()
        xs = {x for mm in poly(i) for x in mm if z3.is_expr(TM._atoms[x]) and TM._atoms[x].decl().kind() == z3.Z3_OP_ITE}
        if not xs: return i
        out = {}
        sub = {}
        for x in xs:
            a = TM._atoms[x]
            c = a.arg(0)
            base = (guard, self.k >= 0)
            r, _ = self.m.prove(base, c, timeout=1000)
            if r == 'proved': sub[x] = norm(a.arg(1)); continue
            r, _ = self.m.prove(base, mk_not(c), timeout=1000)
            if r == 'proved': sub[x] = norm(a.arg(2))
        if not sub: return i
        acc = icst(0)
        for mm, co in poly(i).items():
            t = icst(co)
            for x in mm: t = imul(t, sub.get(x, expr({(x,): 1})))
            acc = iadd(acc, t)
        return acc

    def resolve_val(self, v):
        if isinstance(v, FV): return FV(*[self.resolve_val(x) for x in v.parts()])
        if isinstance(v, Agg): return Agg([self.resolve_val(x) for x in v.vals])
        if isinstance(v, Choice): return mk_choice([(self.resolve_val(c), p) for c, p in v.alts])
        if not z3.is_expr(v): return v
        decl = {}
        for key, cell in self.hdr_cells.items():
            if isinstance(cell.base, UFBase):
                for n, dd in enumerate(cell.base.decls): decl[dd.get_id()] = (cell, n)
        if not decl: return v
        pairs = []
        for a in apps_in(v):
            x = decl.get(a.decl().get_id())
            if x is None: continue
            cell, n = x
            np_ = len(cell.base.prefix)
            if not all(p.eq(q) for p, q in zip(cell.base.prefix, a.children()[:np_])): continue
            idx = tuple(norm(i) for i in a.children()[np_:])
            try:
                old = cell.base.prev.read(idx)
            except Unsupported:
                continue
            pairs.append((a, old.parts()[n] if isinstance(old, FV) else old))
        if not pairs: return v
        # innermost first is handled by repeated substitution
        r = z3.substitute(v, *pairs)
        TM._keep.append(r)
        return norm(r) if z3.is_int(r) else r

    # -- exits
    def exit_count(self):
        """the number of completed iterations at the exit: a closed form when the exit condition determines it"""
        if len(self.exits) != 1: return self.N
        kid = self.k.get_id()

        def solve(a, b):
            # a - b = co*k + rest  ->  -rest/co for co = +-1
            d = padd(poly(a), poly(b), -1)
            co, rest = None, {}
            for mm, c in d.items():
                if kid in mm:
                    if mm != (kid,): return None
                    co = c
                elif any(kid in consts_in(TM._atoms[x]) for x in mm): return None
                else: rest[mm] = c
            if co is None or any(c % co for c in rest.values()): return None
            e = expr({mm: -c // co for mm, c in rest.items()})
            bad = [x for x in apps_in(e) if x.decl().name().startswith(('phi!' + self.path, 'mem!' + self.path))]
            return None if bad else (e, co)
        for c in conjuncts(self.exitc[0]):
            if c.decl().kind() == z3.Z3_OP_EQ and z3.is_int(c.arg(0)):
                r = solve(c.arg(0), c.arg(1))
                if r is not None: return r[0]
        # continues exactly while k < e:  leaves with k = max(0, e)
        for c in conjuncts(self.cont):
            neg = z3.is_not(c)
            x = c.arg(0) if neg else c
            kd = x.decl().kind()
            if kd not in (z3.Z3_OP_LT, z3.Z3_OP_LE, z3.Z3_OP_GT, z3.Z3_OP_GE) or not z3.is_int(x.arg(0)): continue
            if not any(mk_not(c).eq(y) or c.eq(mk_not(y)) for y in conjuncts(self.exitc[0])): continue
            r = solve(x.arg(0), x.arg(1))
            if r is None or abs(r[1]) != 1: continue
            e, co = r
            strict = kd in (z3.Z3_OP_LT, z3.Z3_OP_GT)
            below = kd in (z3.Z3_OP_LT, z3.Z3_OP_LE)
            if co < 0: below = not below
            if neg: below, strict = not below, not strict
            if not below: continue                    # k > e: not an upper bound
            if not strict: e = iadd(e, icst(1))
            if m_nonneg(self.m, e): return e
            return iite(ile(icst(0), e), e, icst(0))
        return self.N

    def exits_out(self):
        m = self.m
        pairs = [(self.k, self.exit_count())]
        out = []
        # substitute environment values defined in the loop
        body = self.fr.info.loops[self.h]
        for name, b in self.fr.info.defblock.items():
            if b in body and name in self.fr.env:
                v = self.fr.env[name]
                try:
                    if isinstance(v, PInt): self.fr.env[name] = PInt(subst(v.p, pairs))
                    else: self.fr.env[name] = subst(v, pairs)
                except Exception as e:
                    raise
        for (pred, succ, st, vals) in self.exits:
            mem = {}
            kid = self.k.get_id()
            for key, c in st.mem.items():
                if c is self.st0.mem.get(key): mem[key] = c
                else: mem[key] = cached_subst(c, pairs)
            s2 = State(tuple(subst(x, pairs) for x in st.pc), mem, self.ks)
            out.append((pred, succ, s2, [PInt(subst(v.p, pairs)) if isinstance(v, PInt) else subst(v, pairs) for v in vals]))
        return out

    # -- candidates
    def views(self):
        hv = View(self.hvals, lambda key: self.hst.mem[key], self.k)
        ev = View(self.init, lambda key: self.st0.mem.get(key) or self.m.initial[key], icst(0))
        bv = View(self.back[1], lambda key: self.back[0].mem[key], iadd(self.k, icst(1))) if self.back else None
        return hv, ev, bv

    def trigger_decls(self, trig):
        if trig == 'R': return [self.Rd], list(self.ks) + [self.k]
        kind, i = trig
        if kind == 'phi':
            v = self.hvals[i]
            if isinstance(v, Ptr):
                # the symbol inside the offset
                ds = [a.decl() for a in apps_in(v.off) if a.decl().name().startswith('phi!' + self.path)]
                return (ds or [self.Rd]), list(self.ks) + [self.k]
            ds = self.m.val_decls(v)
            ds = [d for d in ds if d.name().startswith('phi!')]
            return (ds or [self.Rd]), list(self.ks) + [self.k]
        if kind == 'mem':
            v = self.hst.mem[i].read((icst(0),))
            ds = self.m.val_decls(v) if not isinstance(v, Ptr) else [a.decl() for a in apps_in(v.off)]
            ds = [d for d in ds if d.name().startswith('mem!' + self.path)]
            return (ds or [self.Rd]), list(self.ks) + [self.k]
        if kind == 'cell':
            c = self.hst.mem[i]
            n = self.m.regions[i[0]].arity + 1
            return list(c.base.decls), list(self.ks) + [self.k]
        raise ValueError(trig)

    def install(self, live):
        """facts for the candidates (run_pass re-creates header symbols with the same names)"""
        st, vals = self.header()
        self.hst, self.hvals = st, vals
        hv = View(vals, lambda key: st.mem[key], self.k)
        for c in live:
            ds, formals = self.trigger_decls(c.trigger)
            R = self.Rd(*(list(self.ks) + [self.k]))
            body = c.build(hv, self.k, c.extras)
            if c.trigger[0] == 'cell':
                self.m.add_fact(ds, formals + list(c.extras), mk_imp(R, body))
            else:
                self.m.add_fact(ds, formals, mk_imp(R, body), c.extras)

    def check_base(self, c):
        hv, ev, bv = self.views()
        sk = [self.m_skolem(e) for e in c.extras]
        try:
            g = c.build(ev, icst(0), sk)
        except Unsupported as e:
            return 'unknown'
        r, _ = self.m.prove(self.st0.pc, g, hints=sk, timeout=4000)
        self.m.stats['houdini'] += 1
        return r

    def m_skolem(self, e):
        return z3.Int('sk!' + e.decl().name())

    def check_step(self, c):
        hv, ev, bv = self.views()
        if bv is None: return 'proved'
        sk = [self.m_skolem(e) for e in c.extras]
        try:
            g = c.build(bv, iadd(self.k, icst(1)), sk)
        except Unsupported as e:
            return 'unknown'
        # the invariant itself at k
        r, mm = self.m.prove(self.back[0].pc, g, hints=sk, timeout=6000)
        self.m.stats['houdini'] += 1
        if r != 'proved' and DEBUG and isinstance(DEBUG, str) and DEBUG in c.name:
            print('STEP FAIL', c.name, r); print(g); print(mm)
        return r

    def candidates(self):
        m, info, k = self.m, self.info, self.k
        hv, ev, bv = self.views()
        out = []
        if bv is None: return out
        path = self.path
        # 1. bounds from comparisons in exit/continue conditions
        seen = set()
        kid = k.get_id()
        sources = list(self.exitc) + [self.cont]
        for e in sources:
            for a, b in int_comparisons(e):
                d = padd(poly(a), poly(b), -1)
                co, rest, ok = {}, {}, True
                for mm, c in d.items():
                    n = sum(1 for x in mm if x == kid)
                    if n == 0:
                        if any(kid in consts_in(TM._atoms[x]) for x in mm): ok = False
                        rest[mm] = c
                    elif n == 1:
                        l = list(mm); l.remove(kid)
                        if any(kid in consts_in(TM._atoms[x]) for x in l): ok = False
                        co[tuple(l)] = c
                    else: ok = False
                if not co or not ok: continue
                if all(c < 0 for c in co.values()): d = {q: -c for q, c in d.items()}
                ex = expr(d)
                if ex.get_id() in seen: continue
                seen.add(ex.get_id())
                for nm, f in (('le', lambda v, K, x, ex=ex: ile(subst(ex, [(k, K)]), icst(0))),
                              ('lt', lambda v, K, x, ex=ex: ilt(subst(ex, [(k, K)]), icst(0))),
                              ('le1', lambda v, K, x, ex=ex, co=co: ile(subst(iadd(ex, expr({q: abs(c) for q, c in co.items()})), [(k, K)]), icst(0)))):
                    out.append(Cand('bound.%s[%s]' % (nm, ex), 'R', f))
        # 2. non-inductive scalars
        nonind = []
        for i, v in enumerate(self.hvals):
            if info.ind.get(i) is None and not isinstance(self.init[i], Undef): nonind.append((('phi', i), v, self.init[i], (lambda vw, i=i: vw.phis[i])))
        for key in info.mod:
            reg = m.regions[key[0]]
            if reg.elem is None and not reg.arity and info.memind.get(key) is None:
                nonind.append((('mem', key), self.hst.mem[key].read((icst(0),)), ev.cell(key).read((icst(0),)), (lambda vw, key=key: vw.cell(key).read((icst(0),)))))
        for trig, v, v0, g in nonind:
            nm = str(trig[1]) if trig[0] == 'mem' else str(self.phis[trig[1]].res)
            if isinstance(v, FV):
                out.append(Cand('fin(%s)' % nm, trig, lambda vw, K, x, g=g: fin(g(vw))))
                out.append(Cand('nonneg(%s)' % nm, trig, lambda vw, K, x, g=g: g(vw).v >= 0))
                out.append(Cand('pos(%s)' % nm, trig, lambda vw, K, x, g=g: g(vw).v > 0))
                out.append(Cand('ge-init(%s)' % nm, trig, lambda vw, K, x, g=g, v0=v0: mk_or(v0.nan, mk_not(flt(g(vw), v0)))))
                out.append(Cand('le-init(%s)' % nm, trig, lambda vw, K, x, g=g, v0=v0: mk_or(v0.nan, mk_not(flt(v0, g(vw))))))
                self.reduction(out, trig, nm, g)
            elif isinstance(v, Ptr) or z3.is_int(v):
                off = (lambda y: y.off if isinstance(y, Ptr) else y)
                out.append(Cand('ge-init(%s)' % nm, trig, lambda vw, K, x, g=g, v0=v0: ile(off(v0), off(g(vw)))))
                out.append(Cand('le-init(%s)' % nm, trig, lambda vw, K, x, g=g, v0=v0: ile(off(g(vw)), off(v0))))
                out.append(Cand('nonneg(%s)' % nm, trig, lambda vw, K, x, g=g: ile(icst(0), off(g(vw)))))
                self.reduction(out, trig, nm, g)
            elif z3.is_bool(v):
                self.reduction(out, trig, nm, g)
        # 3. array cells
        for key in info.mod:
            reg = m.regions[key[0]]
            cell = self.hdr_cells[key]
            if reg.elem is None and not reg.arity: continue
            n = reg.arity + 1
            xs = [z3.Int('x%d!%s' % (i, path)) for i in range(n)]
            old = ev.cell(key)
            descs = info.descs.get(key) if cell.kind != 'ptr' else info.pdescs.get(key)
            if cell.kind == 'ptr':
                if descs is None: raise Unsupported('pointer cells of %s rewritten in a loop' % (key,))
                out.append(Cand('ptrs%s' % (key,), 'R', lambda vw, K, x, key=key, old=old, descs=descs:
                           same_val(vw.cell(key).read(tuple(x)), LoopPtrBase(old, [self.desc_at(d, K) for d in descs]).value(tuple(x))),
                           extras=tuple(xs), kind='required'))
                continue
            if descs is None: continue
            nd = len(descs)

            def hits(K, x, descs=descs):
                hs = []
                for d in descs:
                    h = self.desc_at(d, K).hits(x, over=True)
                    if h is None: raise Unsupported('desc')
                    hs.append((h[0], h[1], self.desc_at(d, K)))
                return hs

            def frame(vw, K, x, key=key, old=old, hits=hits):
                hs = hits(K, tuple(x))
                return mk_or(same_val(vw.cell(key).read(tuple(x)), old.read(tuple(x))), *[c for c, _, _ in hs])
            out.append(Cand('frame%s' % (key,), ('cell', key), frame, extras=tuple(xs)))
            for n_ in range(nd):
                def value(vw, K, x, key=key, hits=hits, n_=n_):
                    hs = hits(K, tuple(x))
                    c, pr, d = hs[n_]
                    later = [hs[j][0] for j in range(n_ + 1, nd)]
                    return mk_or(mk_not(c), same_val(vw.cell(key).read(tuple(x)), subst(d.val, pr)), *later)
                value.__defaults__ = (key, hits, n_)
                out.append(Cand('value%s#%d' % (key, n_), ('cell', key), (lambda vw, K, x, key=key, hits=hits, n_=n_, nd=nd: _value(vw, K, x, key, hits, n_, nd)), extras=tuple(xs)))
        # 4. contract-provided templates
        for t in m.templates:
            out.extend(t(m, self) or [])
        # 5. lifted candidates of inner loops
        for c in info.__dict__.get('lifted', []):
            out.append(c)
        return out

    def reduction(self, out, trig, nm, g):
        """F(x, k') == x for earlier k': earlier iterations leave the running value unchanged"""
        hv, ev, bv = self.views()
        hval, bval = g(hv), g(bv)
        if isinstance(hval, Ptr): return
        kp = z3.Int('kr!' + self.path)
        k = self.k
        cont = self.cont

        def build(vw, K, x):
            cur = g(vw)
            kk = x[0]
            # step function with the running value replaced
            pr = []
            hp = hval.parts() if isinstance(hval, FV) else [hval]
            cp = cur.parts() if isinstance(cur, FV) else [cur]
            pr = list(zip(hp, cp))
            fx = subst2(bval, pr, [(k, kk)])
            return mk_or(mk_not(mk_and(ile(icst(0), kk), ilt(kk, K))), same_val(fx, cur))
        out.append(Cand('fix(%s)' % nm, trig, build, extras=(kp,)))

    def lift(self, live):
        """offer surviving reduction invariants to the enclosing loop (done by the contract templates)"""
        return


def _value(vw, K, x, key, hits, n_, nd):
    hs = hits(K, tuple(x))
    c, pr, d = hs[n_]
    later = [hs[j][0] for j in range(n_ + 1, nd)]
    return mk_or(mk_not(c), same_val(vw.cell(key).read(tuple(x)), subst(d.val, pr)), *later)


def subst2(v, pairs1, pairs2):
    """substitute header symbols (at k) by values, and k by another counter, simultaneously:
    first rename k in everything but the header symbols"""
    ph = []
    tmp = []
    for n, (a, b) in enumerate(pairs1):
        if a.eq(b) and False: continue
        t = z3.Const('tmp!%d!%s' % (n, a.sort()), a.sort())
        ph.append((a, t)); tmp.append((t, b))
    w = subst(v, ph)
    w = subst(w, pairs2)
    return subst(w, tmp)


def conjuncts(e):
    return [y for x in e.children() for y in conjuncts(x)] if z3.is_and(e) else [e]


def m_nonneg(m, e):
    return m.known_nonneg(e)


def cached_subst(cell, pairs):
    return cell.subst(pairs)


def repr_desc(d):
    return (tuple(str(v) for v in d.vars), d.guard.get_id(), tuple(i.get_id() for i in d.idx), val_sig(d.val))


def val_sig(v):
    if isinstance(v, FV): return tuple(x.get_id() for x in v.parts())
    if isinstance(v, Ptr): return (v.reg, tuple(f.get_id() for f in v.fam), v.off.get_id())
    if isinstance(v, Choice): return tuple((c.get_id(), val_sig(p)) for c, p in v.alts)
    if isinstance(v, Agg): return tuple(val_sig(x) for x in v.vals)
    if z3.is_expr(v):
        TM._keep.append(v)
        return v.get_id()
    return str(v)


def same_syntactic(a, b):
    if isinstance(a, FV): return isinstance(b, FV) and all(x.eq(y) for x, y in zip(a.parts(), b.parts()))
    if z3.is_expr(a) and z3.is_expr(b): return a.eq(b)
    return False


def same_choice(a, b):
    if not isinstance(b, Choice) or len(a.alts) != len(b.alts): return False
    return all(c.eq(d) and p.reg == q.reg and p.off.eq(q.off) and all(x.eq(y) for x, y in zip(p.fam, q.fam)) for (c, p), (d, q) in zip(a.alts, b.alts))


def int_comparisons(e):
    seen, st = set(), [e]
    out = []
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        kd = x.decl().kind()
        if kd in (z3.Z3_OP_LT, z3.Z3_OP_LE, z3.Z3_OP_GT, z3.Z3_OP_GE, z3.Z3_OP_EQ) and x.num_args() == 2 and z3.is_int(x.arg(0)):
            out.append((x.arg(0), x.arg(1)))
        elif z3.is_bool(x) and kd != z3.Z3_OP_UNINTERPRETED:
            st.extend(x.children())
    return out
