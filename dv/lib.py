"""Common machinery of the property proofs: extraction of the real code to IR, obligation bookkeeping."""
import os, re, subprocess, sys, tempfile, time, traceback, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)
import z3
import ir, vc, externs
import terms as TM
from terms import *
from ir import Unsupported, PTR

REPO = os.environ.get('VF_REPO', '/repo')
CLANG = ['clang++-18', '-std=c++17', '-O1', '-DNDEBUG', '-w', '-I/usr/include/casacore', '-Xclang', '-disable-llvm-passes', '-fno-vectorize', '-S', '-emit-llvm']
PASSES = 'function(sroa,early-cse,simplifycfg,instcombine),cgscc(inline),function(sroa,early-cse,instcombine,simplifycfg,loop-simplify)'


def extract(driver, workdir, name, flags=(), passes=PASSES, noinline=()):
    """driver: C++ text including the real sources; returns the parsed IR module.  Raises Unsupported when it does not compile."""
    src = os.path.join(workdir, name + '.cc')
    driver = driver.replace('@REPO@', REPO)
    with open(src, 'w') as f: f.write(driver)
    ll, oll = os.path.join(workdir, name + '.ll'), os.path.join(workdir, name + '.o.ll')
    p = subprocess.run(CLANG + list(flags) + ['-I' + REPO, src, '-o', ll], capture_output=True, text=True)
    if p.returncode: raise Unsupported('driver %s does not compile against the current sources: %s' % (name, p.stderr[:800]))
    if noinline: keep_calls(ll, noinline)
    p = subprocess.run(['opt-18', '-S', '-passes=' + passes, ll, '-o', oll], capture_output=True, text=True)
    if p.returncode: raise Unsupported('opt: ' + p.stderr[:400])
    return ir.Module(open(oll).read())


def keep_calls(ll, noinline):
    """functions that are verified against a contract stay calls (attribute noinline on their definitions)"""
    text = open(ll).read().split('\n')
    rx = re.compile(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(')
    defs = [(i, '@' + rx.search(l).group(1)) for i, l in enumerate(text) if l.startswith('define')]
    externs.demangle_all([n for _, n in defs])
    for i, n in defs:
        d = externs.demangle(n)
        if any(re.search(r, d) for r in noinline):
            m = re.search(r' #\d+( comdat.*| align.*| personality.*)?( \{)', text[i])
            text[i] = re.sub(r'\)((?: unnamed_addr| local_unnamed_addr)*) (#\d+)', r')\1 noinline \2', text[i], count=1)
    text = [re.sub(r'\balwaysinline\b', '', l) if l.startswith('attributes') else l for l in text]
    open(ll, 'w').write('\n'.join(text))


class Result:
    """outcome of one proof unit"""

    def __init__(self, unit, target):
        self.unit, self.target = unit, target      # target: function under contract
        self.obl = []
        self.error = None
        self.stats = {}
        self.assumptions = set()
        self.trusted = set()
        self.functions = set()
        self.wall = 0
        self.cover = None

    def add(self, name, kind, status, s=0, note=None):
        self.obl.append(dict(name=name, kind=kind, status=status, s=s, note=note))


def nm(name): return z3.Int(name)


class Stop(Exception):
    pass


class Proof:
    """one function under contract: set up the machine, run, check ensures"""

    def __init__(self, unit, mod, fn, target, bv=(), timeout=20000):
        self.res = Result(unit, target)
        self.mod, self.fn = mod, fn
        self.m = vc.Machine(mod, bv=bv, timeout=timeout)
        self.pc = []

    def nat(self, name, lo=0):
        v = norm(z3.Int(name))
        self.m.nonneg_names = self.m.nonneg_names | {name}
        self.m.globals.append(v >= lo)
        return v

    def requires(self, c):
        self.m.globals.append(c)

    def region(self, *a, **k):
        return self.m.region(vc.Region(*a, **k))

    def run(self, args, nothrow=True):
        st = vc.State(tuple(self.pc), {}, ())
        self.state, self.ret = self.m.run_function(self.fn, args, st, 'f')
        if nothrow:
            for s, what, path in self.m.throws:
                r, mdl = self.m.prove(s.pc, F)
                self.res.add('no exception (%s)' % what[:40], 'ensures', r, note=short(mdl))
            if self.state is None:
                self.res.add('returns normally', 'ensures', 'failed')
                raise Stop()
        return self.state, self.ret

    def ensures(self, name, goal, hints=(), st=None, timeout=None, pre=()):
        st = st or self.state
        t = time.time()
        r, mdl = self.m.prove(st.pc + tuple(pre), goal, hints, timeout)
        self.res.add(name, 'ensures', r, round(time.time() - t, 3), note=short(mdl) if r != 'proved' else None)
        return r == 'proved'

    def cover(self, st=None, pre=()):
        """vacuity guard: the precondition together with reaching the end must be satisfiable"""
        st = st or self.state
        if st is None:
            self.res.cover = 'unreachable'; return
        r, _ = self.m.prove(st.pc + tuple(pre), F, timeout=5000)
        # 'proved' would mean that the end is unreachable under the contract
        self.res.cover = 'unreachable' if r == 'proved' else 'reachable'
        self.res.add('vacuity: the end of the function is reachable under the precondition', 'cover',
                     'proved' if r != 'proved' else 'failed')

    def cell(self, reg, off, kind, idx, st=None):
        st = st or self.state
        return self.m.get_cell(st, (reg, off), kind).read(tuple(idx))

    def finish(self, kinds=None):
        """kinds: obligation kinds that belong to the property (None: all)"""
        r = self.res
        for o in self.m.obl:
            if kinds is not None and o['kind'] not in kinds: continue
            r.obl.append(dict(name=o['name'], kind=o['kind'], status=o['status'], s=o['s'],
                              note=short(o['model']) if o['status'] != 'proved' else None))
        r.stats = dict(self.m.stats)
        r.assumptions |= self.m.assumptions
        r.trusted |= set(externs.USED)
        r.functions |= {externs.demangle(f) for f in self.m.visited}
        return r


def short(m):
    if m is None: return None
    s = str(m)
    return s if len(s) < 1500 else s[:1500] + ' ...'


def guarded(unit, target, f):
    """run f() -> Result; convert failures into an undecided unit"""
    t = time.time()
    externs.USED.clear()
    try:
        r = f()
    except Unsupported as e:
        r = Result(unit, target); r.error = 'outside the verifier: %s' % e
    except RecursionError as e:
        r = Result(unit, target); r.error = 'tool limit: recursion'
    except Exception as e:
        r = Result(unit, target); r.error = 'tool error: %s' % ''.join(traceback.format_exception(e))[-1500:]
    r.wall = round(time.time() - t, 3)
    return r
