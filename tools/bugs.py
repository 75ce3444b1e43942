#!/usr/bin/env python3
"""Runs the check of its property against every planted bug: bugs.py [--all-checks] [ID...]"""
import json, os, subprocess, sys, time
R = '/verif'
ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(f'{R}/seeded'))
for i in ids:
    d = f'{R}/seeded/{i}'
    if not os.path.exists(f'{d}/meta.json'):
        continue
    prop = json.load(open(f'{d}/meta.json'))['property']
    subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'], check=True)
    subprocess.run(['git', '-C', '/repo', 'apply', f'{d}/patch.diff'], check=True)
    t = time.time()
    try:
        r = subprocess.run([f'{R}/check', prop, '--tier', 'quick'], cwd=R, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'), timeout=900)
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'], check=True)
    v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    verdict = 'CAUGHT' if r.returncode == 1 and any(f'property={prop}' in l for l in v) else 'MISSED'
    print(f'{i:32} {prop} rc={r.returncode} {verdict} {time.time()-t:.0f}s', flush=True)
    if verdict == 'MISSED':
        print('\n'.join('      ' + l for l in r.stdout.splitlines()[-12:]), flush=True)
