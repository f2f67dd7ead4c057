"""C04: dyscostman::Dictionary searches."""
from lib import *
from vc import Cand

METHODS = (('lower_bound', 2), ('lower_bound_branchless_two_minimum', 2), ('lower_bound_branchless', 1),
           ('lower_bound_two_minimum', 2), ('lower_bound_one_minimum', 1), ('lower_bound_slow', 1))


def driver():
    s = '#include <cstddef>\n#include <algorithm>\n#include "@REPO@/dictionary.h"\nusing dyscostman::Dictionary;\n'
    for m, _ in METHODS:
        s += 'extern "C" const float* vf_%s(const Dictionary* d, float v){ return d->%s(v);}\n' % (m, m)
    return s


ISP = z3.Function('is_power_of_two', z3.IntSort(), z3.BoolSort())


def power_axioms(m):
    x = z3.Int('axp')
    m.add_fact([ISP], (x,), mk_imp(mk_and(ISP(x), x >= 2), z3.And(x == 2 * (x / 2), ISP(x / 2))))
    m.add_fact([ISP], (x,), mk_imp(ISP(x), x >= 1))
    m.add_fact([ISP], (x,), mk_imp(x == 1, ISP(x)))
    m.add_fact([m.POW2], (x,), mk_imp(x >= 0, z3.And(m.POW2(x) >= 1, ISP(m.POW2(x)))))


def search_templates(tab, n, v, at):
    """invariant candidates for searches in a sorted table: at(i) = value of entry i, v = the value searched"""
    def tpl(m, lc):
        out = []
        hv, ev, bv = lc.views()
        items = []
        for i, x in enumerate(lc.hvals):
            if isinstance(x, Ptr) and x.reg == tab: items.append((lc.phis[i].res, ('phi', i), True, lambda vw, i=i: idiv(vw.phis[i].off, icst(4))))
            elif z3.is_expr(x) and z3.is_int(x): items.append((lc.phis[i].res, ('phi', i), False, lambda vw, i=i: vw.phis[i]))

        def lt(e): return fcmp('olt', at(e), v)
        def le(e): return fcmp('ole', at(e), v)
        one, zero = icst(1), icst(0)
        for nm_, tr, isp, g in items:
            out.append(Cand('0<=%s' % nm_, 'R', lambda vw, K, x, g=g: ile(zero, g(vw))))
            out.append(Cand('%s<n' % nm_, 'R', lambda vw, K, x, g=g: ilt(g(vw), n)))
            out.append(Cand('%s<=n' % nm_, 'R', lambda vw, K, x, g=g: ile(g(vw), n)))
            out.append(Cand('tab[%s]<v' % nm_, 'R', lambda vw, K, x, g=g: mk_or(ieq(g(vw), zero), lt(g(vw)))))
            out.append(Cand('tab[%s]<=v' % nm_, 'R', lambda vw, K, x, g=g: mk_or(ieq(g(vw), zero), le(g(vw)))))
            out.append(Cand('tab[%s-1]<v' % nm_, 'R', lambda vw, K, x, g=g: mk_or(ile(g(vw), zero), lt(isub(g(vw), one)))))
            out.append(Cand('tab[%s]>v' % nm_, 'R', lambda vw, K, x, g=g: mk_or(ile(n, g(vw)), mk_not(le(g(vw))))))
            out.append(Cand('tab[%s]>=v' % nm_, 'R', lambda vw, K, x, g=g: mk_or(ile(n, g(vw)), mk_not(lt(g(vw))))))
            if not isp:
                out.append(Cand('pow2(%s)' % nm_, 'R', lambda vw, K, x, g=g: mk_or(ieq(g(vw), zero), ISP(g(vw)))))
        for a, ta, ia, ga in items:
            for b, tb, ib, gb in items:
                if a == b: continue
                out.append(Cand('%s<%s' % (a, b), 'R', lambda vw, K, x, ga=ga, gb=gb: ilt(ga(vw), gb(vw))))
                out.append(Cand('%s<=%s' % (a, b), 'R', lambda vw, K, x, ga=ga, gb=gb: ile(ga(vw), gb(vw))))
                if not ib and (ia or a < b or True):
                    def B(e, strict): return mk_or(ile(n, e), mk_not(le(e) if strict else lt(e)))
                    for strict in (0, 1):
                        out.append(Cand('tab[%s+%s]%sv' % (a, b, '>' if strict else '>='), 'R', lambda vw, K, x, ga=ga, gb=gb, s=strict, B=B: B(iadd(ga(vw), gb(vw)), s)))
                    out.append(Cand('tab[%s+max(2%s,1)]>=v' % (a, b), 'R', lambda vw, K, x, ga=ga, gb=gb, B=B:
                               mk_ite(ile(gb(vw), zero), B(iadd(ga(vw), one), 0), B(iadd(ga(vw), imul(icst(2), gb(vw))), 0))))
                    out.append(Cand('%s+%s<=n' % (a, b), 'R', lambda vw, K, x, ga=ga, gb=gb: ile(iadd(ga(vw), gb(vw)), n)))
        return out
    return tpl


def sorted_table(p, tab, n):
    st = vc.State((), {}, ())
    cell = p.m.get_cell(st, (tab, 0), 'fp')
    x, y = z3.Int('tx'), z3.Int('ty')
    a, b = cell.read((x,)), cell.read((y,))
    inr = mk_and(ile(icst(0), x), ilt(x, n))
    p.m.add_fact(p.m.val_decls(a), (x,), mk_imp(inr, fin(a)))
    p.m.add_fact([a.v.decl()], (x,), mk_imp(mk_and(ile(icst(0), x), ilt(x, y), ilt(y, n)), a.v < b.v), (y,))
    p.m.add_fact([a.v.decl()], (x,), mk_imp(mk_and(ile(icst(0), y), ilt(y, x), ilt(x, n)), b.v < a.v), (y,))
    return lambda i: cell.read((i,))


def search(mod, meth, minimum):
    p = Proof(meth, mod, '@vf_' + meth, 'Dictionary::' + meth)
    n = p.nat('n', minimum)
    p.region('tab', 4, n)
    p.m.read_only.add('tab')
    p.region('D', None, fields={0: Ptr('tab', (), icst(0)), 8: Ptr('tab', (), imul(icst(4), n)), 16: Ptr('tab', (), imul(icst(4), n))})
    p.m.read_only.add('D')
    v = FV(F, F, z3.Real('v'))
    at = sorted_table(p, 'tab', n)
    power_axioms(p.m)
    p.m.maxgen = 3
    p.m.templates.append(search_templates('tab', n, v, at))
    p.run([Ptr('D', (), icst(0)), v])
    rs = alts(p.ret)
    p.ensures('result points into the table or to its end', mk_and(*[mk_imp(c, mk_and(T if q.reg == 'tab' else F, ile(icst(0), q.off), ile(q.off, imul(icst(4), n)), ieq(imod(q.off, icst(4)), icst(0)))) for c, q in rs]))
    r = idiv(rs[0][1].off, icst(4))
    j = p.nat('j')
    h = [j, r, isub(r, icst(1)), icst(0)]
    p.ensures('every entry before the result is smaller than the value', mk_imp(ilt(j, r), fcmp('olt', at(j), v)), hints=h)
    p.ensures('the entry at the result is not smaller than the value', mk_imp(mk_and(ile(r, j), ilt(j, n)), mk_not(fcmp('olt', at(j), v))), hints=h)
    p.cover()
    return p.finish()


def units(pid):
    return [(m, 'Dictionary::' + m, lambda mod, m=m, k=k: search(mod, m, k)) for m, k in METHODS]
