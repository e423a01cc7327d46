#!/usr/bin/env python3
"""Development only: runs the checks of planted bugs in clones under /tmp/dev (never in /verif or /repo).
  runseeds.py [--all-checks] [id ...]"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = '/tmp/dev'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
os.makedirs(D, exist_ok=True)
for n, s in (('verif', V), ('repo', os.environ.get('VERIF_REPO', '/repo'))):
    if not os.path.isdir(D + '/' + n):
        print(sh('git clone -q %s %s/%s' % (s, D, n)).stdout)
    print(sh('cd %s/%s && git checkout -q -- . && git fetch -q %s HEAD && git reset -q --hard FETCH_HEAD' % (D, n, s)).stdout)
m = json.load(open(D + '/verif/MANIFEST.json'))
print(sh('cd %s/verif && VERIF_REPO=%s/repo %s' % (D, D, m['setup_cmd'])).stdout[-500:])
ids = [a for a in sys.argv[1:] if a[0] != '-'] or sorted(os.listdir(V + '/seeded'))
for i in ids:
    meta = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
    p = meta['property']
    a = sh('git -C %s/repo apply %s/seeded/%s/patch.diff' % (D, V, i))
    if a.returncode: print(i, 'DOES NOT APPLY', a.stdout); continue
    c = [x for x in m['checks'] if x['property_id'] == p] if 'property_id' in m['checks'][0] else [x for x in m['checks'] if x.get('property') == p]
    if not c: print(i, p, 'no check'); sh('git -C %s/repo checkout -q -- .' % D); continue
    t = time.time()
    cmd = c[0].get('quick_cmd') or c[0].get('quick')
    r = sh('cd %s/verif && VERIF_REPO=%s/repo VERIF_SEED=1 VERIF_TIER=quick %s' % (D, D, cmd))
    v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
    print(i, p, 'exit', r.returncode, 'CAUGHT' if r.returncode == 1 and v else 'MISSED', '%.0fs' % (time.time() - t), (v or r.stdout.strip().split('\n')[-1:])[0][:150], flush=True)
    sh('git -C %s/repo checkout -q -- .' % D)
