#!/usr/bin/env python3
"""Driver: rebuilds the encoding of the real code from /repo, runs the symbolic executor on every harness of a
property, replays what the solver found on a native build, and writes the evidence file.

  check.py P01                  run the check (tier from VERIF_TIER, default quick)
  check.py --replay FILE        rerun a reported violation natively
  check.py --replay FILE        (FILE is the path printed in the VIOLATION line)
"""
import sys, os, json, subprocess, time, shutil, tempfile, re
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, V)
import checks

CXX, CC, LINK = 'clang++-20', 'clang-20', 'llvm-link-20'
BASE = ['-std=c++26', '-nostdinc++', '-DPYSTD_HAS_REGEX', '-DPCRE2_CODE_UNIT_WIDTH=8']
BCF = ['-O2', '-g1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-pic', '-D__NO_CTYPE', '-emit-llvm', '-c']
NATF = ['-O1', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer', '-c']
NCPU = int(os.environ.get("VERIF_JOBS") or os.cpu_count() or 8)

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

def ensure_engine():
    exe = os.path.join(V, 'build', 'symx')
    srcs = [os.path.join(V, 'engine', f) for f in os.listdir(os.path.join(V, 'engine'))]
    if not os.path.exists(exe) or any(os.path.getmtime(s) > os.path.getmtime(exe) for s in srcs if not s.endswith('.sh')):
        r = sh(['bash', os.path.join(V, 'engine', 'build.sh')])
        if r.returncode:
            print(r.stdout)
            sys.exit(2)
    return exe

class Build:
    """Compiles what one harness unit needs, from the current tree."""
    def __init__(self, unit, tier, wd, shared=None):
        self.u, self.tier, self.wd, self.shared = unit, tier, wd, {} if shared is None else shared
        os.makedirs(wd, exist_ok=True)
        self.inc = os.path.join(wd, 'inc')
        os.makedirs(self.inc, exist_ok=True)
        with open(os.path.join(REPO, 'include', 'pystd_config.hpp.in')) as f:
            t = f.read()
        with open(os.path.join(self.inc, 'pystd_config.hpp'), 'w') as f:
            f.write(re.sub(r'#mesondefine\s+(\w+)', r'#define \1', t))
        self.flags = BASE + ['-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'src'), '-I' + self.inc,
                             '-I' + os.path.join(V, 'harness'), '-I' + os.path.join(V, 'reference'), '-DVX_TIER=%d' % (1 if tier == 'thorough' else 0)]
        self.flags += unit.get('defs', [])
        self.srcs = [os.path.join(REPO, 'src', s) for s in unit.get('repo', [])]
        self.srcs.append(os.path.join(V, 'harness', unit['src']))

    def compile(self, kind, pool):
        out, futs = [], []
        shared = self.shared
        ex = BCF + self.u.get('bcflags', []) if kind == 'bc' else NATF + self.u.get('natflags', [])
        for s in self.srcs:
            o = os.path.join(self.wd, os.path.basename(s).replace('.cpp', '.' + kind))
            # the generated header is the same for every unit, so units with the same flags share objects
            key = (s, kind, tuple(x for x in self.flags if x != '-I' + self.inc), tuple(ex))
            if key not in shared:
                shared[key] = (o, pool.submit(sh, [CXX] + self.flags + ex + [s, '-o', o]))
            out.append(shared[key][0])
            futs.append(shared[key][1])
        if kind == 'bc':
            o = os.path.join(self.wd, 'libc_model.bc')
            out.append(o)
            futs.append(pool.submit(sh, [CC, '-O1', '-g1', '-fno-builtin', '-emit-llvm', '-c',
                                         os.path.join(V, 'harness', 'libc_model.c'), '-o', o]))
        else:
            o = os.path.join(self.wd, 'native.o')
            out.append(o)
            futs.append(pool.submit(sh, [CXX] + self.flags + NATF + [os.path.join(V, 'harness', 'native.cpp'), '-o', o]))
        return out, futs

    def bitcode(self, pool):
        return self.compile('bc', pool)

    def link_bc(self, outs, futs):
        for f in futs:
            r = f.result()
            if r.returncode:
                return None, r.stdout
        t = os.path.join(self.wd, 'all.bc')
        r = sh([LINK] + outs + ['-o', t])
        if r.returncode:
            return None, r.stdout
        return t, ''

    def link_native(self, outs, futs):
        for f in futs:
            r = f.result()
            if r.returncode:
                return None, r.stdout
        t = os.path.join(self.wd, 'replay')
        r = sh([CXX, '-fsanitize=address', '-nostdlib++', '-rdynamic'] + outs + ['-o', t, '-lsupc++', '-ldl', '-lpthread'] +
               ['-Wl,--wrap=' + w for w in self.u.get('wrap', [])] + self.u.get('ldflags', []))
        if r.returncode:
            return None, r.stdout
        return t, ''

def native_run(exe, entry, cases, wd, timeout=200):
    """Returns a list of (status, detail, observations) per case."""
    fn = os.path.join(wd, 'cases_%s.txt' % entry)
    with open(fn, 'w') as f:
        for c in cases:
            f.write('case ' + ' '.join(str(x) for x in c) + '\n')
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:'
               'detect_stack_use_after_return=1:strict_string_checks=0:alloc_dealloc_mismatch=1', LC_ALL='C')
    sd = os.path.join(wd, 'scratch')
    os.makedirs(sd, exist_ok=True)
    try:
        r = subprocess.run([exe, fn, entry], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=sd,
                           timeout=timeout)
        txt = r.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired as e:
        txt = (e.stdout or b'').decode('utf-8', 'replace')
    res = []
    for blk in re.split(r'^CASE \d+\n', txt, flags=re.M)[1:]:
        obs = [int(m) for m in re.findall(r'^OBS .* (\d+)$', blk, flags=re.M)]
        end = re.search(r'^END (\w+) (-?\d+)$', blk, flags=re.M)
        if re.search(r'^ASSUME-FAILED', blk, flags=re.M):
            res.append(('assume', '', obs))
        elif re.search(r'^VIOLATION', blk, flags=re.M):
            res.append(('violation', re.search(r'^VIOLATION (.*)$', blk, flags=re.M).group(1), obs))
        elif 'ERROR: AddressSanitizer' in blk:
            res.append(('violation', 'AddressSanitizer: ' +
                        re.search(r'ERROR: AddressSanitizer:? ([^\n]*)', blk).group(1)[:160], obs))
        elif end and end.group(1) == 'signal':
            sig = int(end.group(2))
            msg = {6: 'SIGABRT', 11: 'SIGSEGV', 14: 'did not terminate (20 s alarm)', 8: 'SIGFPE', 4: 'SIGILL'}.get(sig, 'signal %d' % sig)
            a = re.search(r'Assertion [^\n]*|terminate called[^\n]*', blk)
            res.append(('timeout' if sig == 14 else 'violation', msg + (': ' + a.group(0) if a else ''), obs))
        elif re.search(r'^COMPLETE', blk, flags=re.M):
            res.append(('complete', '', obs))
        elif end and end.group(1) == 'exit':
            res.append(('violation', 'exit %s' % end.group(2), obs))
        else:
            res.append(('none', '', obs))
    while len(res) < len(cases):
        res.append(('none', '', []))
    return res

def load_known():
    p = os.path.join(V, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p))['findings']

def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    prop = sys.argv[1]
    only = sys.argv[2:] # optional entry filter for development
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    spec = checks.PROPS[prop]
    exe = ensure_engine()
    os.makedirs(os.path.join(V, 'build', 'run'), exist_ok=True)
    wd = tempfile.mkdtemp(prefix=prop + '-', dir=os.path.join(V, 'build', 'run'))
    try:
        return run(prop, spec, tier, seed, exe, wd, t0, only)
    finally:
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(wd, ignore_errors=True)

def run(prop, spec, tier, seed, exe, wd, t0, only):
    known = [k for k in load_known() if k['property'] == prop and k.get('status', 'open') == 'open']
    budget = spec.get('budget', {}).get(tier, 330 if tier == 'quick' else 2400)
    ev = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], paths_completed=0,
              paths_assumed_away=0, solver_queries=0, solver_sat=0, solver_unsat=0, solver_unknown=0, solver_time_s=0.0,
              instructions_executed=0, assertions_checked=0, assertions_symbolic=0, harnesses={}, functions_encoded=[],
              incomplete=[], unconfirmed_counterexamples=[], validation_mismatches=[])
    funcs = set()
    lines = {}
    confirmed, knownhits = [], []
    broken = []
    pool = ThreadPoolExecutor(NCPU)
    builds = []
    shared = {}
    for i, u in enumerate(spec['units']):
        ents = [e for e in u['entries'] if (not only or e['name'] in only) and tier in e.get('tiers', ('quick', 'thorough'))]
        if not ents:
            continue
        b = Build(u, tier, os.path.join(wd, 'u%d' % i), shared)
        builds.append((u, ents, b, b.bitcode(pool), b.compile('o', pool)))
    nent = sum(len(x[1]) for x in builds)
    for u, ents, b, bc, nat in builds:
        bcf, err = b.link_bc(*bc)
        if not bcf and u.get('optional'):
            ev['incomplete'].append('%s does not build against this tree and was left out' % u['src'])
            continue
        if not bcf:
            broken.append('%s: %s' % (u['src'], err[:3000]))
            continue
        natexe = None
        for e in ents:
            name = e['name']
            left = budget - (time.time() - t0)
            tl = min(e.get('time', {}).get(tier, 100 if tier == 'quick' else 900), max(left, 5))
            out = os.path.join(b.wd, name + '.json')
            cmd = [exe, bcf, '--entry', name, '--out', out, '--jobs', str(NCPU), '--time', str(tl), '--seed', str(seed)]
            cmd += e.get('flags', [])
            kn = [k for k in known if k['harness'] == name]
            for k in kn:
                cmd += ['--known', k['kind'] + '|' + k['label']]
            try:
                r = sh(cmd, timeout=tl + 150)
                msg = r.stdout
            except subprocess.TimeoutExpired:
                msg = 'symx did not stop'
            if not os.path.exists(out):
                broken.append('%s: engine failed: %s' % (name, msg[-2000:]))
                continue
            R = json.load(open(out))
            agg = {}
            reach, limits, errors = {}, {}, {}
            viols, smp = [], []
            for w in R['workers']:
                for k, v in w.items():
                    if isinstance(v, (int, float)):
                        agg[k] = agg.get(k, 0) + v
                for src, dst in ((w['reach'], reach), (w['limits'], limits), (w['errors'], errors)):
                    for k, v in src.items():
                        dst[k] = dst.get(k, 0) + v
                viols += w['violations']
                smp += w['samples']
                for k, v in w['lines'].items():
                    fi, ln = k.rsplit('|', 1)
                    if fi.startswith(REPO):
                        lines.setdefault(os.path.relpath(fi, REPO), {}).setdefault(int(ln), set()).add(name if v else '')
                for k in w['functions']:
                    fi, fn = k.split('|', 1)
                    if fi.startswith(REPO):
                        funcs.add(os.path.relpath(fi, REPO) + ': ' + fn)
            complete = not R['timeup'] and not R['crashed'] and not limits and not errors and not R['pending']
            npaths = sum(agg.get(k, 0) for k in ('paths_complete', 'paths_violation', 'paths_assumed_away', 'paths_error', 'paths_limit'))
            h = dict(bound=e['bound'], complete=complete, wall_s=round(R['wall'], 2), paths=npaths,
                     paths_completed=agg.get('paths_complete', 0), queries=agg.get('queries', 0),
                     unsat=agg.get('q_unsat', 0), solver_time_s=round(agg.get('solver_time', 0), 2), reached=reach)
            want = e.get('reach', [])
            miss = [x for x in want if x not in reach]
            if miss:
                h['unreached_witnesses'] = miss
            if agg.get('paths_reference_undefined'):
                h['paths_without_released_behaviour'] = agg['paths_reference_undefined']
            if errors:
                h['engine_errors'] = errors
            if limits:
                h['limits'] = limits
            if not complete:
                ev['incomplete'].append('%s: explored %d paths, %d pending%s%s' % (name, npaths, R['pending'],
                    ', limits %s' % limits if limits else '', ', errors %s' % errors if errors else ''))
            ev['states'] += npaths + agg.get('forks', 0)
            ev['transitions'] += agg.get('forks', 0) * 2 + agg.get('implied', 0)
            ev['paths_completed'] += agg.get('paths_complete', 0)
            ev['paths_assumed_away'] += agg.get('paths_assumed_away', 0)
            ev['solver_queries'] += agg.get('queries', 0)
            ev['solver_sat'] += agg.get('q_sat', 0)
            ev['solver_unsat'] += agg.get('q_unsat', 0)
            ev['solver_unknown'] += agg.get('q_unknown', 0)
            ev['solver_time_s'] += agg.get('solver_time', 0)
            ev['instructions_executed'] += agg.get('steps', 0)
            ev['assertions_checked'] += agg.get('asserts', 0)
            ev['assertions_symbolic'] += agg.get('sym_asserts', 0)
            ev['solver'] = R['z3']
            # native side
            if natexe is None:
                natexe, err = b.link_native(*nat)
                if not natexe:
                    broken.append('%s: native build: %s' % (u['src'], err[:3000]))
                    ev['harnesses'][name] = h
                    continue
            # validation of the encoding on sampled complete paths
            step = max(1, len(smp) // 40)
            sel = smp[::step][:40]
            nok = 0
            if sel and not e.get('no_native'):
                for s, (stt, det, obs) in zip(sel, native_run(natexe, name, [s['input'] for s in sel], b.wd)):
                    if stt == 'complete' and obs == s['obs']:
                        nok += 1
                    elif stt == 'violation':
                        viols.append(dict(kind='native', label=det, where='native run of a sampled path', input=s['input'],
                                          names=s['names'], widths=s['widths'], obs=s['obs']))
                    else:
                        ev['validation_mismatches'].append(dict(harness=name, status=stt, engine=s['obs'][:20], native=obs[:20],
                                                                input=s['input'][:64]))
            h['native_validated'] = nok
            ev['traces_validated_against_impl'] += nok
            for s in sel[:2]:
                if len(ev['samples']) < 12:
                    ev['samples'].append(dict(harness=name, input=dict_input(s), observed=s['obs'][:24]))
            # violations
            seen = {}
            for v in viols:
                seen.setdefault((v['kind'], v['label'], v['where'].split(' <- ')[0] if v['kind'] != 'assert' else ''), []).append(v)
            for (kind, label, _), vs in sorted(seen.items()):
                k = next((k for k in kn if k['kind'] == kind and k['label'] == label), None)
                if kind in ('hang', 'limit') and any(c[0] == name for c in confirmed):
                    continue # one replay of a run that does not end is enough
                rr = native_run(natexe, name, [v['input'] for v in vs[:1 if kind in ('hang', 'limit') else 3]], b.wd)
                for v, (stt, det, obs) in zip(vs, rr):
                    good = stt == 'violation' or (stt == 'timeout' and kind in ('hang', 'limit'))
                    if good:
                        (knownhits if k else confirmed).append((name, u, v, det, k))
                        break
                else:
                    ev['unconfirmed_counterexamples'].append(dict(harness=name, kind=kind, label=label, where=vs[0]['where'],
                        native=[x[0] for x in rr], input=vs[0]['input'][:64]))
            h['violations'] = len(seen)
            ev['harnesses'][name] = h
            if os.environ.get('VERIF_DEBUG'):
                print(name, 'complete' if complete else 'INCOMPLETE', 'paths', npaths, 'wall %.1f' % R['wall'],
                      'q', agg.get('queries'), 'st %.1f' % agg.get('solver_time', 0), 'validated %d/%d' % (nok, len(sel)), reach,
                      'MISSING %s' % miss if miss else '', limits or '', errors or '')
                for (kind, label, _), vs in sorted(seen.items()):
                    print('   VIOL', kind, label, vs[0]['where'][:200], dict_input(vs[0]))
            if confirmed and not os.environ.get('VERIF_ALL'):
                break
        if confirmed and not os.environ.get('VERIF_ALL'):
            break
    pool.shutdown(wait=True)
    ev['functions_encoded'] = sorted(funcs)
    ev['lines_executed_symbolically'] = {f: sum(1 for x in d.values() if x - {''}) for f, d in sorted(lines.items())}
    if os.environ.get('VERIF_LINES'):
        json.dump({f: {str(n): sorted(x - {''}) for n, x in d.items()} for f, d in lines.items()},
                  open(os.environ['VERIF_LINES'], 'w'))
    ev['solver_time_s'] = round(ev['solver_time_s'], 2)
    ev['exhaustive'] = not ev['incomplete'] and not broken and not only
    ev['bounds'] = {n: h['bound'] for n, h in ev['harnesses'].items()}
    ev['stubs'] = spec.get('stubs', [])
    ev['rule'] = ('Every harness is executed symbolically over the bitcode of the current tree; a path ends only when the solver '
                  'has decided every branch on it, and every assertion is a query over all values on that path.')
    if broken:
        ev['build_problems'] = broken
    evd = dict(property=prop, tier=tier, seed=seed, level=spec.get('level', 'model_checking'), coverage=ev,
               assumptions=spec.get('assumptions', []) + checks.COMMON_ASSUMPTIONS, wall_s=round(time.time() - t0, 2),
               violations=len(confirmed))
    ep = os.path.join(V, 'evidence', prop + '.json')
    if not only:
        os.makedirs(os.path.dirname(ep), exist_ok=True)
        with open(ep + '.tmp', 'w') as f:
            json.dump(evd, f, indent=1)
        os.replace(ep + '.tmp', ep)
    for x in ev['incomplete']:
        print('NOTE incomplete within the budget: ' + x)
    for x in ev['unconfirmed_counterexamples']:
        print('NOTE unconfirmed counterexample (not reproduced natively, not reported): %s %s %s %s' % (x['harness'], x['kind'], x['label'], x['where'][:200]))
    for x in ev['validation_mismatches'][:5]:
        print('NOTE encoding/native mismatch: %s' % x)
    for name, u, v, det, k in knownhits:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    print('%s %s: %d harness(es), %d paths, %d queries (%.1f s solver), %d native validations, %.1f s' % (
        prop, tier, len(ev['harnesses']), ev['paths_completed'], ev['solver_queries'], ev['solver_time_s'],
        ev['traces_validated_against_impl'], time.time() - t0))
    if confirmed:
        rd = os.path.join(V, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        for i, (name, u, v, det, k) in enumerate(confirmed[:5]):
            rp = os.path.join(rd, '%s_%s_%d.case' % (prop, name, i))
            with open(rp, 'w') as f:
                f.write('# property %s harness %s unit %s tier %s\n# %s: %s\n# at %s\n# native: %s\n# input %s\n' % (
                    prop, name, u['src'], tier, v['kind'], v['label'], v['where'], det, json.dumps(dict_input(v))))
                f.write('# rerun: python3 check.py --replay %s\n' % rp)
                f.write('case ' + ' '.join(str(x) for x in v['input']) + '\n')
            print('  %s [%s] %s: %s at %s; native: %s; input %s' % (name, u['src'], v['kind'], v['label'], v['where'][:300], det,
                                                               json.dumps(dict_input(v))[:600]))
            print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if broken:
        for x in broken:
            print('ERROR', x)
        return 2
    return 0

def dict_input(s):
    d, out = {}, {}
    for n, v in zip(s['names'], s['input']):
        out.setdefault(n, []).append(v)
    return {k: (v[0] if len(v) == 1 else v) for k, v in out.items()}

def replay(fn):
    txt = open(fn).read()
    m = re.search(r'# property (\S+) harness (\S+) unit (\S+) tier (\S+)', txt)
    prop, name, src, tier = m.groups()
    case = [int(x) for x in re.search(r'^case (.*)$', txt, flags=re.M).group(1).split()]
    u = next(u for u in checks.PROPS[prop]['units'] if u['src'] == src and any(e['name'] == name for e in u['entries']))
    wd = tempfile.mkdtemp(prefix='replay-')
    try:
        b = Build(u, tier, wd)
        with ThreadPoolExecutor(NCPU) as pool:
            exe, err = b.link_native(*b.compile('o', pool))
        if not exe:
            print(err)
            return 2
        r = native_run(exe, name, [case], wd)[0]
        print(r)
        return 0 if r[0] == 'complete' else 1
    finally:
        shutil.rmtree(wd, ignore_errors=True)

if __name__ == '__main__':
    sys.exit(main())
