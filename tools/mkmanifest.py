#!/usr/bin/env python3
"""regenerates MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = ('bounded exhaustive: every path of the real Python code over all symbolic inputs within the '
     'bounds stated in the harness docstring is decided by z3; beyond the bounds nothing is claimed. Trusts the '
     'instrumenting interpreter (checked on every run against uninstrumented executions of sampled path models)')
B = ('bounded exhaustive: every path of the C++ that the current generator emits for the corpus, as clang LLVM IR, over '
     'all symbolic arguments within the stated bounds. Trusts clang, the model of the CPython C-API and of the wrapped '
     'library (sampled paths and every counterexample are replayed in a real compiled extension module)')
TA = 'symbolic execution of the Python source with SMT (z3), replayed counterexamples'
TB = 'symbolic execution of the LLVM IR of the generated wrappers with SMT (z3), replayed counterexamples'
PY = ['P01', 'P02', 'P03', 'P04', 'P05', 'P06', 'P21', 'P22', 'P23', 'P24']
IR = ["P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16", "P17", "P18", "P19", "P20"]
NA = {}
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks = []
for p in props:
    if p in PY or p in IR:
        checks.append(dict(property=p, quick_cmd='python3-vt check.py %s' % p, thorough_cmd='VERIF_TIER=thorough python3-vt check.py %s' % p,
                           technique=TA if p in PY else TB, level='model_checking', level_note=A if p in PY else B))
m = dict(version=1, setup_cmd='true', checks=checks,
         not_applicable=[dict(property=p, reason=NA.get(p, 'check not built yet')) for p in props if p not in PY + IR])
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
