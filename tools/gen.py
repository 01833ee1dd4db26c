#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + '/tools']
import props, checks
with open(f'{V}/properties.jsonl', 'w') as f:
    for p in props.PROPS:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
TECH = 'symbolic execution of the LLVM IR of the real code + SMT (z3), counterexamples replayed natively'
cs, na = [], []
for p in props.PROPS:
    c = checks.CHECKS.get(p['id'])
    if not c:
        na.append({'property': p['id'], 'reason': getattr(props, 'NA', {}).get(p['id'], 'not encoded yet')})
        continue
    cs.append({'property': p['id'], 'quick_cmd': f'VERIF_TIER=quick python3 check.py {p["id"]}', 'thorough_cmd': f'VERIF_TIER=thorough python3 check.py {p["id"]}',
               'evidence_file': f'evidence/{p["id"]}.json', 'technique': TECH, 'level': 'model_checking',
               'level_note': f'Solver verdict for all values within the bounds. Bounds: {c["bounds"]}. Outside: {c["outside"]}. Trusted: the executor in engine/ (its paths are re-run natively as a cross-check), clang\'s IR, z3, floats taken as exact reals.'})
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': cs, 'not_applicable': na,
     'notes': 'No hooks in /repo. Every check compiles /repo\'s current sources to LLVM bitcode and natively; build/ is a cache that is safe to delete.'}
json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1)
open(f'{V}/MANIFEST.json', 'a').write('\n')
print(len(cs), 'checks', len(na), 'not applicable')
