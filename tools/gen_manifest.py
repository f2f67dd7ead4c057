#!/usr/bin/env python3
"""writes MANIFEST.json from the registry"""
import sys, os, json
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(H, 'dv'))
from registry import PROPS, NOT_CLAIMED, TITLES
checks = []
for k, v in sorted(PROPS.items()):
    checks.append(dict(property=k, quick_cmd='python3-vt check.py %s quick' % k, thorough_cmd='python3-vt check.py %s thorough' % k,
                       technique='contract-based deductive verification of the real code (own VC generator over LLVM IR of the current sources, z3)',
                       level='proof', level_note=v['note']))
na = [dict(property=k, reason=NOT_CLAIMED.get(k, 'not built yet')) for k in TITLES if k not in PROPS]
m = dict(version=1, setup_cmd='python3-vt tools/setup.py', checks=checks, not_applicable=na,
         notes='Contracts live in dv/props/*.py; DESIGN.md describes the engine and every contract; native/*.cc are the bounded replay checkers.')
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
