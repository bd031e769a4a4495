#!/usr/bin/env python3
"""sweep.py [ID...]: runs each planted change's property check on a patched copy; prints caught / missed."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
for i in ids:
    d = f'{V}/seeded/{i}'
    p = json.load(open(d + '/meta.json'))['property']
    wt = '/tmp/sweep_wt%d' % os.getpid()
    subprocess.run(['rm', '-rf', wt]); subprocess.run(['cp', '-a', '/repo', wt])
    subprocess.run(['git', '-C', wt, 'apply', d + '/patch.diff'], check=True)
    t = time.time()
    r = subprocess.run(['python3', 'check.py', p, os.environ.get('TIER', 'quick')], cwd=os.environ.get('VERIF', V), env=dict(os.environ, REPO=wt, VERIF_SEED=os.environ.get('VERIF_SEED', '1')), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    v = [l for l in r.stdout.splitlines() if 'VIOLATION' in l]
    ok = r.returncode == 1 and any(f'property={p} ' in l + ' ' for l in v)
    print(i, p, 'CAUGHT' if ok else 'MISSED', 'rc', r.returncode, '%.0fs' % (time.time() - t), len(v), flush=True)
    os.makedirs(V + '/out', exist_ok=True); open(f'{V}/out/sweep_{i}.log', 'w').write(r.stdout)
    subprocess.run(['rm', '-rf', wt])
