#!/usr/bin/env python3
"""Validates planted bugs: plant.py [--no-check] ID...   (applies each patch to /repo, builds, tests, runs demo and check, and undoes it)"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
args = [a for a in sys.argv[1:] if not a.startswith('-')]
nocheck = '--no-check' in sys.argv; nobuild = '--no-build' in sys.argv
assert not sh('git -C /repo status --porcelain').stdout.strip(), '/repo is not clean'
if not nobuild:
    r = sh('bash /opt/vp/build.sh'); assert r.returncode == 0, r.stdout[-2000:]
    for a in args:
        r = sh(f'bash {V}/seeded/{a}/demo.sh', cwd='/repo')
        if r.returncode: print(f'{a}: DEMO FAILS ON THE UNCHANGED TREE: {r.stdout[-1500:]}')
for a in args:
    d = f'{V}/seeded/{a}'; m = json.load(open(d + '/meta.json')); pid = m['property']
    try:
        r = sh(f'git -C /repo apply {d}/patch.diff')
        if r.returncode: print(f'{a}: patch does not apply: {r.stdout}'); continue
        msg = []
        if not nobuild:
            r = sh('bash /opt/vp/build.sh'); msg.append('build ' + ('ok' if r.returncode == 0 else 'FAILS ' + r.stdout[-800:]))
            sh('bash /opt/vp/test.sh /tmp/plant.json'); p = set(json.load(open('/tmp/plant.json'))['passed']); msg.append('tests ' + ('ok' if base <= p else 'FAIL ' + str(base - p)))
            r = sh(f'bash {d}/demo.sh', cwd='/repo'); msg.append('demo ' + ('shows it' if r.returncode else 'DOES NOT SHOW IT'))
        if not nocheck:
            t = time.time(); r = sh(f'python3 check.py {pid}', cwd=V, env=dict(os.environ, VERIF_TIER='quick', VERIF_SEED='1'))
            msg.append(f'{pid} ' + ('CAUGHT' if r.returncode == 1 and f'VIOLATION property={pid}' in r.stdout else f'MISSED rc={r.returncode} {r.stdout[-700:]}') + f' {time.time()-t:.0f}s')
        print(f'{a}: ' + '; '.join(msg), flush=True)
    finally:
        sh('git -C /repo checkout -- .')
if not nobuild: sh('bash /opt/vp/build.sh')
