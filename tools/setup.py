#!/usr/bin/env python3-vt
"""nothing to install: checks that the tools are there and that the verifier rejects a wrong contract (self-test)"""
import os, sys, subprocess, tempfile, shutil
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(H, 'dv'), os.path.join(H, 'dv', 'props')]
for t in ('clang++-18', 'opt-18', 'g++', 'c++filt'):
    if not shutil.which(t): sys.exit('missing tool ' + t)
from lib import *
w = tempfile.mkdtemp(prefix='vf_setup_')
try:
    mod = extract('''#include <cstddef>
extern "C" void vf_fill(int* a, size_t n, int v) { for (size_t i = 0; i != n; ++i) a[i] = v; }
extern "C" void vf_bad(int* a, size_t n, int v) { for (size_t i = 0; i <= n; ++i) a[i] = v; }
''', w, 'self')
    def unit(fn, wrong):
        p = Proof('self', mod, fn, fn)
        n, v = p.nat('n'), norm(z3.Int('v'))
        p.region('a', 4, n)
        p.run([Ptr('a', (), icst(0)), n, v])
        j = p.nat('j')
        x = p.cell('a', 0, 'int', [j])
        p.ensures('filled', mk_imp(ilt(j, n) if not wrong else ile(j, n), ieq(x, v)), hints=[j])
        p.cover()
        return all(o['status'] == 'proved' for o in p.finish().obl)
    assert unit('@vf_fill', False), 'self-test: a correct contract is not proved'
    assert not unit('@vf_fill', True), 'self-test: a wrong postcondition is proved'
    assert not unit('@vf_bad', False), 'self-test: an out-of-bounds write is proved'
finally:
    shutil.rmtree(w)
print('setup: tools present, verifier self-test passed')
