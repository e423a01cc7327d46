"""What every check runs.  Harnesses are found by scanning harness/*.cpp:

  //@unit repo=core,argparse wrap=fopen,fread defs=-DX natflags=... bcflags=... ldflags=...
  //@stub text                     (a stand-in or assumption that is part of the claim; whole unit)
  //@ C04[,C05] bound text [reach+=label] [reach-=label] [time=60/300] [tiers=thorough] [no_native] [flags=--x y]
  HARNESS(name) { ... }

Labels given to vx_reach() inside a harness are reachability witnesses that must be hit.
"""
import os, re
V = os.path.dirname(os.path.abspath(__file__))
H = os.path.join(V, 'harness')
GROUPS = {'core': ['pystd2026.cpp', 'pystd2026_tables.cpp', 'pystd_common.cpp'], 'argparse': ['pystd2026_argparse.cpp'],
          'filesystem': ['pystd2026_filesystem.cpp'], 'regex': ['pystd2026_regex.cpp'], 'threading': ['pystd2026_threading.cpp'],
          'core25': ['pystd2025.cpp', 'pystd2025_tables.cpp', 'pystd_common.cpp'], 'filesystem25': ['pystd2025_filesystem.cpp'],
          'regex25': ['pystd2025_regex.cpp'], 'threading25': ['pystd2025_threading.cpp']}
# The released epoch, kept here under another namespace; the checks of C32 to C34 compare the current tree with it.
REF = os.path.join(V, 'reference')
for _g, _l in (('core', ['', '_tables']), ('filesystem', ['_filesystem']), ('regex', ['_regex']), ('threading', ['_threading'])):
    GROUPS['ref_' + _g] = [os.path.join(REF, 'pystd2025ref%s.cpp' % x) for x in _l]
COMMON_ASSUMPTIONS = [
    'memory allocation succeeds; sizes above the bounds stated per harness are outside the claim',
    'the encoding is the LLVM bitcode of clang++-20 -O2 of the current tree with assertions active; C library functions are '
    'replaced by the small C models in harness/libc_model.c or by the stand-ins listed under stubs',
    'data races and weak memory are outside the encoding (one thread)',
]
BUDGET = {'quick': 330, 'thorough': 3000}

def scan():
    props = {}
    for fn in sorted(os.listdir(H)):
        if not fn.endswith('.cpp') or fn == 'native.cpp':
            continue
        txt = open(os.path.join(H, fn)).read()
        unit = dict(src=fn, repo=[], wrap=[], defs=[], natflags=[], bcflags=[], ldflags=[], optional=False)
        stubs = [m.strip() for m in re.findall(r'^//@stub (.*)$', txt, flags=re.M)]
        groups = ['core']
        for m in re.finditer(r'^//@unit (.*)$', txt, flags=re.M):
            for kv in m.group(1).split():
                k, v = kv.split('=', 1)
                if k == 'repo':
                    groups = v.split(',') if v != 'none' else []
                elif k == 'wrap':
                    unit['wrap'] += v.split(',')
                elif k == 'optional':
                    unit['optional'] = True
                else:
                    unit[k].append(v)
        for g in groups:
            unit['repo'] += GROUPS[g]
        pos = list(re.finditer(r'((?:^//@ .*\n)+)\s*HARNESS\((\w+)\)', txt, flags=re.M))
        for i, m in enumerate(pos):
            body = txt[m.end():pos[i + 1].start() if i + 1 < len(pos) else len(txt)]
            ann = ' '.join(l[4:].strip() for l in m.group(1).strip().split('\n'))
            ids, ann = ann.split(None, 1)
            reach = []
            for call in re.findall(r'vx_reach\(((?:[^()"]|"[^"]*"|\([^()]*\))*)\)', body):
                for l in re.findall(r'"([^"]*)"', call):
                    if l not in reach:
                        reach.append(l)
            opts = re.findall(r'\[([^\]]*)\]', ann)
            e = dict(name=m.group(2), reach=reach, time={}, flags=[], tiers=('quick', 'thorough'))
            for o in opts:
                k, _, v = o.partition('=')
                if k == 'reach-':
                    e['reach'] = [x for x in reach if x not in v.split(',')]
                elif k == 'time':
                    q, _, t = v.partition('/')
                    e['time'] = dict(quick=int(q), thorough=int(t or q))
                elif k == 'tiers':
                    e['tiers'] = tuple(v.split(','))
                elif k == 'no_native':
                    e['no_native'] = True
                elif k == 'flags':
                    e['flags'] = v.split()
                else:
                    raise SystemExit('%s: unknown option %s' % (fn, o))
            e['bound'] = re.sub(r'\s*\[[^\]]*\]', '', ann).strip()
            for p in ids.split(','):
                pr = props.setdefault(p, dict(units=[], stubs=[], assumptions=[], budget=BUDGET, level='model_checking'))
                u = next((x for x in pr['units'] if x['src'] == fn), None)
                if u is None:
                    u = dict(unit, entries=[])
                    pr['units'].append(u)
                    pr['stubs'] += [s for s in stubs if s not in pr['stubs']]
                u['entries'].append(e)
    return props

PROPS = scan()
