#!/usr/bin/env python3
"""Makes and confirms planted bugs (development only; no check uses this or /verif/seeded).

  mkseed.py SPEC.py [id ...]     SPEC.py calls seed(id, property, file, [(old, new), ...], needs, breaks, demo[, libs])
In a scratch copy of /repo: the patch applies, builds, passes the stable tests, touches only original lines, and the
demonstration fails with it and passes without.
"""
import json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = '/tmp/seedwork'
BASE = '9d6fb02'
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
DEMO_SH = '''#!/bin/bash
# run with cwd = the repository after its build
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -r "$T"' EXIT
CFG=$(dirname "$(find _build -name pystd_config.hpp | head -1)")
clang++-20 -std=c++26 -g -O1 -fsanitize=address,undefined -fno-sanitize-recover=undefined -nostdlib++ -include new -Iinclude -Isrc -I"$CFG" -DPYSTD_HAS_REGEX "$D/demo.cpp" @SRC@ \\
  -o "$T/demo" -lsupc++ @LIBS@ || exit 3
cd "$T" && ASAN_OPTIONS=detect_leaks=0 timeout 120 ./demo
'''
CORE = 'src/pystd2026.cpp src/pystd2026_tables.cpp src/pystd_common.cpp'
only = sys.argv[2:]
def seed(id, prop, file, edits, needs, breaks, demo, extra='', libs=''):
    if only and id not in only:
        return
    d = os.path.join(V, 'seeded', id)
    if not only and os.path.exists(os.path.join(d, 'meta.json')):
        return
    subprocess.check_call('git -C %s/repo checkout -q -- . && git -C %s/repo fetch -q %s HEAD && git -C %s/repo reset -q --hard FETCH_HEAD' % (S, S, os.environ.get('VERIF_REPO', '/repo'), S), shell=True)
    files = file if isinstance(file, list) else [file]
    for (i, (o, n)) in enumerate(edits):
        f = files[i] if len(files) > 1 else files[0]
        p = os.path.join(S, 'repo', f)
        t = open(p).read()
        if t.count(o) != 1:
            print(id, 'FAIL: old text occurs', t.count(o), 'times'); return
        open(p, 'w').write(t.replace(o, n))
    diff = sh('git -C %s/repo diff' % S).stdout
    # only original lines may be changed
    for f in set(files):
        blame = sh('git -C %s/repo blame -s HEAD -- %s' % (S, f)).stdout.split('\n')
        ln = 0
        for l in sh('git -C %s/repo diff -U0 -- %s' % (S, f)).stdout.split('\n'):
            m = re.match(r'@@ -(\d+)(?:,(\d+))? ', l)
            if m:
                a, c = int(m.group(1)), int(m.group(2) or 1)
                for k in range(a, a + c):
                    if not blame[k - 1].startswith('^' + BASE) and not blame[k - 1].startswith(BASE):
                        print(id, 'WARNING: line %d is not original: %s' % (k, blame[k - 1]))
                if c == 0:
                    print(id, 'note: pure insertion at', a)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.cpp'), 'w').write(demo)
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH.replace('@SRC@', (CORE + ' ' + extra).strip()).replace('@LIBS@', libs))
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    # the demonstration and the tests in a container-free copy: build at /repo's path is fixed, so use our own build dir
    def build():
        return sh('cd %s/repo && ninja -C _build 2>&1 | tail -5' % S)
    r = build()
    if 'FAILED' in r.stdout or 'error' in r.stdout:
        print(id, 'FAIL: build', r.stdout); return
    t = sh("cd %s/repo && T=$(meson introspect _build --tests | python3 -c 'import json,sys; [print(t[\"name\"]) for t in json.load(sys.stdin) if t[\"name\"] != \"timing\"]'); meson test -C _build --no-rebuild $T" % S)
    ok = 'Ok:' in t.stdout and not re.search(r'(?m)^(Fail|Timeout|Unexpected Pass):\s+[1-9]', t.stdout)
    bad = sh('cd %s/repo && bash %s/demo.sh' % (S, d))
    sh('git -C %s/repo checkout -q -- .' % S)
    build()
    good = sh('cd %s/repo && bash %s/demo.sh' % (S, d))
    v = 'CONFIRMED' if ok and bad.returncode not in (0, 2, 3) and good.returncode == 0 else 'FAIL'
    print(id, v, 'tests', 'pass' if ok else t.stdout[-600:], 'with', bad.returncode, 'without', good.returncode)
    if v == 'FAIL':
        print(bad.stdout[-800:], '\n----\n', good.stdout[-800:])
if not os.path.exists(S):
    os.makedirs(S)
    subprocess.check_call('git clone -q /repo %s/repo && cd %s/repo && CXX=clang++-20 CC=clang-20 meson setup _build --buildtype=debugoptimized --wrap-mode=nodownload -Dwerror=false -Dcpp_args=-DPYSTD_HAS_REGEX >/dev/null && ninja -C _build >/dev/null' % (S, S), shell=True)
exec(open(sys.argv[1]).read())
