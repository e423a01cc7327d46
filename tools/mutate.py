#!/usr/bin/env python3
"""Development only: mutation testing of the checks.
  mutate.py LINES.json OUT.jsonl [--n N] [--workers W] [--files regex] [--seed S]
LINES.json maps file -> line -> ["C04:entry", ...] (collected with VERIF_LINES).  Each mutant is one small change of one covered
line; the harnesses that cover the line are run (cheapest first) on a copy of the repository until one reports a violation."""
import json, os, random, re, shutil, subprocess, sys, threading, time, queue, argparse
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument('lines'); ap.add_argument('out')
ap.add_argument('--n', type=int, default=200); ap.add_argument('--workers', type=int, default=5)
ap.add_argument('--files', default='.'); ap.add_argument('--seed', type=int, default=1)
ap.add_argument('--repo', default='/repo'); ap.add_argument('--cap', type=float, default=400)
ap.add_argument('--ids', default='')
a = ap.parse_args()
T = json.load(open(a.lines))
cost = {}
for f in os.listdir(V + '/evidence'):
    if re.match(r'C\d\d\.json$', f):
        for n, h in json.load(open(V + '/evidence/' + f))['coverage']['harnesses'].items():
            cost[f[:3] + ':' + n] = 8 * h['wall_s'] + 1
OPS = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '),
       (r' \+ 1\b', ''), (r' - 1\b', ''), (r' \+ ', ' - '), (r' - ', ' + '), (r' && ', ' || '), (r' \|\| ', ' && '),
       (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\b0\b', '1'), (r'\b1\b', '2'), (r'\+\+', '--'), (r'--', '++'),
       (r'if\(!', 'if('), (r'if\((?!!)(.*)\) \{$', r'if(!(\1)) {'), (r'\* 2\b', '* 3'), (r'\bmin', 'max'), (r'break;', ';'), (r'continue;', ';')]
def mutants(f, src, n):
    l = src[n - 1]
    s = l.strip()
    if not s or s.startswith(('//', '#', 'template', 'static_assert', 'requires', 'case', 'assert')): return
    code = l.split('//')[0]
    for o, r in OPS:
        for m in re.finditer(o, code):
            if 'template' in code or '"' in code[:m.start()] and '"' in code[m.end():]: continue
            yield code[:m.start()] + m.expand(r) + code[m.end():]
    if re.match(r'^[\w\.\->\[\]\(\)\*:\+&, =]+;$', s) and not re.match(r'(return|break|continue|auto|const|size_t|char|int|throw|case|bool|using|\w+ \w+;|\w+ \*?\w+ = )', s):
        yield l[:len(l) - len(l.lstrip())] + ';'
    if s.startswith('throw') or s.startswith('bootstrap_throw'):
        yield l[:len(l) - len(l.lstrip())] + ';'
    m = re.match(r'^(\s*(?:\} else )?if\()(.*)(\) \{)$', l.split('//')[0].rstrip())
    if m and 'constexpr' not in l:
        yield m.group(1) + 'false && (' + m.group(2) + ')' + m.group(3)
        yield m.group(1) + 'true || (' + m.group(2) + ')' + m.group(3)
    if s == 'return false;': yield l.replace('false', 'true')
allm = []
for f, d in T.items():
    if not re.search(a.files, f) or 'tables' in f: continue
    src = open(a.repo + '/' + f).read().split('\n')
    for n, ents in d.items():
        if not ents: continue
        seen = set()
        for m in mutants(f, src, int(n)):
            if m != src[int(n) - 1] and m not in seen:
                seen.add(m); allm.append((f, int(n), m))
allm.sort()
rnd = random.Random(a.seed)
rnd.shuffle(allm)
print(len(allm), 'possible mutants', flush=True)
done = set()
if os.path.exists(a.out):
    for l in open(a.out):
        x = json.loads(l); done.add((x['file'], x['line'], x['new']))
todo = [m for m in allm if (m[0], m[1], m[2].strip()) not in done][:a.n]
q = queue.Queue()
for m in todo: q.put(m)
lock = threading.Lock()
stats = {}
def work(w):
    R = '/tmp/mut/%d' % w
    shutil.rmtree(R, ignore_errors=True)
    os.makedirs('/tmp/mut', exist_ok=True)
    subprocess.check_call(['git', 'clone', '-q', a.repo, R])
    while True:
        try: f, n, m = q.get_nowait()
        except queue.Empty: break
        p = R + '/' + f
        orig = open(p).read()
        src = orig.split('\n')
        old = src[n - 1]
        src[n - 1] = m
        open(p, 'w').write('\n'.join(src))
        ents = sorted(T[f][str(n)], key=lambda e: cost.get(e, 50))
        verdict, by, tot, t0, ran = 'SURVIVED', '', 0, time.time(), []
        # cheapest first, in groups of one property
        groups = {}
        for e in ents:
            if tot + cost.get(e, 50) > a.cap and ran: continue
            tot += cost.get(e, 50); ran.append(e)
            groups.setdefault(e[:3], []).append(e[4:])
        for c, es in sorted(groups.items(), key=lambda g: sum(cost.get(g[0] + ':' + e, 50) for e in g[1])):
            r = subprocess.run(['python3', V + '/check.py', c] + es, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace',
                               env=dict(os.environ, VERIF_REPO=R, VERIF_JOBS='1'))
            if r.returncode == 1:
                verdict, by = 'KILLED', c; break
            if r.returncode == 2 or 'ERROR' in r.stdout:
                verdict, by = 'NOBUILD', c + (r.stdout.strip().split('\n') or [''])[-1][:200]; break
            if r.returncode != 0:
                verdict, by = 'CRASH', r.stdout[-300:]; break
        open(p, 'w').write(orig)
        with lock:
            stats[verdict] = stats.get(verdict, 0) + 1
            with open(a.out, 'a') as o:
                o.write(json.dumps(dict(file=f, line=n, old=old.strip(), new=m.strip(), verdict=verdict, by=by, ran=ran, skipped=len(ents) - len(ran), t=round(time.time() - t0, 1))) + '\n')
            if verdict == 'SURVIVED': print(f, n, '|', old.strip(), '=>', m.strip(), '| ran', len(ran), 'skipped', len(ents) - len(ran), flush=True)
    shutil.rmtree(R, ignore_errors=True)
ts = [threading.Thread(target=work, args=(i,)) for i in range(a.workers)]
for t in ts: t.start()
for t in ts: t.join()
print(stats)
