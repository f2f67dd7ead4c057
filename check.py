#!/usr/bin/env python3-vt
"""check.py ID: decide one property on /repo's current tree.

1. extract the functions under contract from /repo (clang -> LLVM IR) and discharge every obligation;
2. run the same contract on the compiled real code (replay of failures, machine-arithmetic gap, bounded);
3. write evidence/ID.json; exit 0 (held) or 1 with a VIOLATION line.
"""
import json, os, sys, time, shutil, subprocess, tempfile, importlib, signal, multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'dv'), os.path.join(HERE, 'dv', 'props')]
sys.dont_write_bytecode = True
from registry import PROPS, COMMON_ASSUMPTIONS, TRUSTED
REPO = os.environ.get('VF_REPO', '/repo')


class UnitTimeout(Exception): pass


def work(args):
    modname, pid, i, workdir, limit = args
    import lib
    P = importlib.import_module(modname)
    name, target, f = P.units(pid)[i]
    mod = MODS.get(modname)

    def onalarm(*a): raise lib.Unsupported('time limit of the unit')
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(int(limit))
    try:
        r = lib.guarded(name, target, lambda: f(mod(name) if callable(mod) else mod))
    finally:
        signal.alarm(0)
    return dict(unit=r.unit, target=r.target, obl=r.obl, error=r.error, stats=r.stats, assumptions=sorted(r.assumptions),
                trusted=sorted(r.trusted), functions=sorted(r.functions), wall=r.wall, cover=r.cover)


MODS = {}


def prove(pid, spec, workdir, limit, log):
    """run all proof units; returns list of unit results"""
    import lib
    out, jobs = [], []
    for modname in spec['proof']:
        P = importlib.import_module(modname)
        units = P.units(pid)
        if not units: continue
        try:
            if hasattr(P, 'drivers'):
                mods = {}
                for dn, text in P.drivers(pid).items():
                    try: mods[dn] = lib.extract(text, workdir, modname + '_' + dn, getattr(P, 'FLAGS', ()), noinline=getattr(P, 'KEEP', ()))
                    except lib.Unsupported as e: mods[dn] = e
                def get(unit, mods=mods, P=P):
                    m = mods[P.driver_of(unit)]
                    if isinstance(m, Exception): raise lib.Unsupported(str(m))
                    return m
                MODS[modname] = get
            else:
                MODS[modname] = lib.extract(P.driver(), workdir, modname, getattr(P, 'FLAGS', ()), noinline=getattr(P, 'KEEP', ()))
        except lib.Unsupported as e:
            for name, target, f in units:
                out.append(dict(unit=name, target=target, obl=[], error='extraction: %s' % e, stats={}, assumptions=[], trusted=[], functions=[], wall=0, cover=None))
            continue
        for i in range(len(units)): jobs.append((modname, pid, i, workdir, limit))
    if jobs:
        with mp.get_context('fork').Pool(min(8, len(jobs))) as pool:
            rs = [(j, pool.apply_async(work, (j,))) for j in jobs]
            for j, r in rs:
                try:
                    out.append(r.get(limit * 3 + 60))
                except Exception as e:
                    name, target, _ = importlib.import_module(j[0]).units(pid)[j[2]]
                    out.append(dict(unit=name, target=target, obl=[], error='tool limit: %s' % str(e)[:300], stats={}, assumptions=[], trusted=[], functions=[], wall=limit, cover=None))
            pool.terminate()
    return out


CXX = ['g++', '-std=c++17', '-O1', '-g1', '-DNDEBUG', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=alignment,nonnull-attribute,null,pointer-overflow',
       '-I/usr/include/casacore']


def native_build(name, extra, workdir, san, asserts=False):
    exe = os.path.join(workdir, 'n_' + name)
    cmd = [c for c in CXX if (san or 'sanitize' not in c) and not (asserts and c == '-DNDEBUG')] + ['-I' + REPO, '-I' + os.path.join(HERE, 'native'), os.path.join(HERE, 'native', name + '.cc'), '-o', exe]
    tail = []
    for e in extra:
        if e.startswith('-'): tail.append(e)
        else: cmd.append(os.path.join(REPO, e))
    srcs = [a for a in cmd if a.endswith('.cc')]
    if len(srcs) > 3:
        # several translation units: compile them side by side
        base = [a for a in cmd[:cmd.index('-o')] if not a.endswith('.cc')]
        fl = [a for a in tail if not a.startswith('-l')]
        ps = []
        for i, f in enumerate(srcs):
            o = '%s_%d.o' % (exe, i)
            ps.append((o, subprocess.Popen(base + fl + ['-c', f, '-o', o], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)))
        errs = [(q.communicate()[1], q.returncode) for _, q in ps]
        for e, rc in errs:
            if rc: return None, e[-1500:]
        p = subprocess.run(base + [o for o, _ in ps] + ['-o', exe] + tail, capture_output=True, text=True)
    else:
        p = subprocess.run(cmd + tail, capture_output=True, text=True)
    if p.returncode: return None, p.stderr[-1500:]
    return exe, None


def native(spec, workdir, seed, tier):
    """run the bounded native checkers; returns (list of dicts)"""
    out = []
    for name, extra in spec.get('native', []):
        d = dict(name=name, cases=0, distinct=0, samples=[], fail=None, error=None)
        out.append(d)
        exe, err = native_build(name, extra, workdir, spec.get('san', True), spec.get('asserts', False))
        if exe is None:
            d['error'] = 'does not build: ' + err
            continue
        budget = spec.get('native_s', 20) if tier == 'quick' else spec.get('native_thorough_s', 240)
        scratch = tempfile.mkdtemp(prefix='run_', dir=workdir)
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=1', VF_PROPERTY=spec['id'])
        t = time.time()
        try:
            p = subprocess.run([exe, str(seed), str(budget), tier], cwd=scratch, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=budget * 3 + 200)
        except subprocess.TimeoutExpired:
            d['error'] = 'time limit'
            continue
        d['wall'] = round(time.time() - t, 2)
        so, se = p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')
        for l in so.splitlines():
            if l.startswith('FAIL ') and not d['fail']: d['fail'] = l[5:]
            elif l.startswith('CASES '):
                w = l.split(); d['cases'], d['distinct'] = int(w[1]), int(w[3])
            elif l.startswith('SAMPLE '): d['samples'].append(l[7:])
        if not d['fail'] and p.returncode != 0 and 'runtime error:' in se:
            l = [l for l in se.splitlines() if 'runtime error:' in l][0]
            d['fail'] = 'undefined behaviour: ' + l[:300]
        if d['fail']: d['stderr'] = se[-3000:]
        elif p.returncode != 0: d['error'] = 'exit status %d: %s' % (p.returncode, se[-500:])
    return out


def main():
    pid = sys.argv[1]
    spec = dict(PROPS[pid], id=pid)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2: tier = sys.argv[2]
    t0 = time.time()
    workdir = tempfile.mkdtemp(prefix='vf_%s_' % pid)
    try:
        code = run(pid, spec, seed, tier, workdir, t0)
    finally:
        shutil.rmtree(workdir, ignore_errors=True)
    sys.exit(code)


def run(pid, spec, seed, tier, workdir, t0):
    limit = spec.get('unit_s', 150) * (1 if tier == 'quick' else 3)
    # the native run goes on in the background while the proofs are checked
    import threading
    box = {}
    th = threading.Thread(target=lambda: box.update(n=native(spec, workdir, seed, tier)))
    units = prove(pid, spec, workdir, limit, None)
    th.start(); th.join()
    nat = box.get('n', [])
    obls = [(u, o) for u in units for o in u['obl']]
    total, done = len(obls), sum(1 for _, o in obls if o['status'] == 'proved')
    failed = [(u, o) for u, o in obls if o['status'] == 'failed']
    unknown = [(u, o) for u, o in obls if o['status'] == 'unknown']
    broken = [u for u in units if u['error']]
    nfail = [n for n in nat if n['fail']]
    known = known_findings(pid)
    violations, knownhit = [], []
    for n in nfail:
        k = [x for x in known if x in n['fail']]
        if k: knownhit += k
        else: violations.append(n)
    replay = None
    ret = 0
    lines = []
    if violations or failed:
        rd = os.path.join(HERE, 'replay'); os.makedirs(rd, exist_ok=True)
        replay = os.path.join(rd, '%s.txt' % pid)
        with open(replay, 'w') as f:
            f.write('property %s: %s\n\n' % (pid, spec['title']))
            for n in violations:
                f.write('failing input on the real code (checker native/%s.cc, compiled from %s; rerun: VERIF_SEED=%d python3-vt %s %s):\n  %s\n\n%s\n\n' % (n['name'], REPO, seed, os.path.join(HERE, 'check.py'), pid, n['fail'], n.get('stderr', '')))
            for u, o in failed:
                f.write('failed obligation: unit %s (contract of %s), %s: %s\n  solver: sat (counter-model of the verification condition)\n  %s\n\n' % (u['unit'], u['target'], o['kind'], o['name'], o['note']))
            for u, o in unknown: f.write('undecided obligation: unit %s, %s: %s\n' % (u['unit'], o['kind'], o['name']))
        if violations:
            lines.append('VIOLATION property=%s replay=%s' % (pid, replay)); ret = 1
        else:
            lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, replay)); ret = 1
    for k in knownhit: lines.append('KNOWN-FINDING: property=%s %s' % (pid, k))
    for u in units:
        b = [o for o in u['obl'] if o['status'] != 'proved']
        print('%-34s %-46s obligations %3d  discharged %3d  %6.1fs %s' % (u['unit'][:34], u['target'][:46], len(u['obl']), len(u['obl']) - len(b), u['wall'], ('UNDECIDED: ' + u['error'].split('\n')[-1][:160]) if u['error'] else ''))
        for o in b[:8]: print('      %s: %s [%s]' % (o['status'], o['name'], o['kind']))
    for n in nat:
        print('native %-20s cases %d distinct %d %s%s' % (n['name'], n['cases'], n['distinct'], 'FAIL ' + n['fail'] if n['fail'] else '', ' (not run: %s)' % n['error'] if n['error'] else ''))
    undecided = bool(broken or unknown or not total)
    if ret == 0 and undecided:
        print('%s: %d unit(s) outside the verifier on this tree, %d obligation(s) undecided: decided only by the bounded native run' % (pid, len(broken), len(unknown)))
    funcs = sorted({f for u in units for f in u['functions']})
    ev = dict(property=pid, tier=tier, seed=seed, level='proof',
              coverage=dict(obligations=total, discharged=done,
                            checker_cmd='python3-vt check.py %s' % pid,
                            trusted_base=TRUSTED + sorted({'assumed contract: ' + t for u in units for t in u['trusted']}),
                            backend='z3 (python binding), verification conditions generated by dv/vc.py from LLVM IR of the current sources',
                            functions_under_contract=sorted({u['target'] for u in units if not u['error']}),
                            functions_symbolically_executed=funcs,
                            units=[dict(unit=u['unit'], target=u['target'], obligations=len(u['obl']), discharged=sum(o['status'] == 'proved' for o in u['obl']), wall_s=u['wall'], vacuity=u['cover'], undecided=u['error']) for u in units],
                            undischarged=[dict(unit=u['unit'], name=o['name'], kind=o['kind'], status=o['status']) for u, o in obls if o['status'] != 'proved'],
                            solver_queries=sum(u['stats'].get('queries', 0) for u in units),
                            solver_s=round(sum(u['stats'].get('solver_s', 0) for u in units), 3),
                            bounded_native=[dict(checker=n['name'], evaluations=n['cases'], distinct=n['distinct'], samples=n['samples'], failure=n['fail'], error=n['error']) for n in nat],
                            bounded_note='bounded native runs replay failed obligations and cover the machine-arithmetic gap; they are never counted as proved. ' + spec.get('bounded', ''),
                            explanation=('all obligations discharged' if total and done == total and not broken else 'undecided parts are covered only by the bounded native run') ),
              assumptions=COMMON_ASSUMPTIONS + spec.get('assumptions', []) + sorted({a for u in units for a in u['assumptions']}),
              wall_s=round(time.time() - t0, 2), violations=len(violations) + (1 if failed and not violations else 0))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for l in lines: print(l)
    if ret == 0: print('%s: held (%d/%d obligations discharged, %.1fs)' % (pid, done, total, time.time() - t0))
    return ret


def known_findings(pid):
    """lines 'finding: property=ID | <text the failure report contains>'"""
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('finding: property=%s | ' % pid): out.append(l.split(' | ', 1)[1].strip())
    return out


if __name__ == '__main__':
    main()
