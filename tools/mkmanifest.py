#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has at least one harness; the rest is listed as not applicable."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks
NA = {}
nap = os.path.join(V, 'tools', 'not_applicable.json')
if os.path.exists(nap):
    NA = json.load(open(nap))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
out = dict(version=1, setup_cmd='bash engine/build.sh', checks=[], not_applicable=[],
           notes='Solver-based checking: bounded symbolic execution (engine/, Z3) of the LLVM bitcode of the current tree; see DESIGN.md.')
for p in props:
    i = p['id']
    if i in checks.PROPS and i not in NA:
        sp = checks.PROPS[i]
        n = sum(len(u['entries']) for u in sp['units'])
        out['checks'].append(dict(property=i, quick_cmd='python3 check.py ' + i,
            thorough_cmd='VERIF_TIER=thorough python3 check.py ' + i, evidence_file='evidence/%s.json' % i,
            technique='bounded symbolic execution of the compiled code (LLVM bitcode) with an SMT solver (Z3)',
            level='model_checking',
            level_note=('Every path within the stated bounds of %d harness(es) is decided by the solver; sampled paths are '
                        'cross-checked against a native AddressSanitizer build and counterexamples are replayed there before '
                        'they are reported. Trusted: the executor in engine/, clang++-20, Z3, the C library models%s. '
                        'Nothing is claimed beyond the bounds.' % (n, ' and the stand-ins named in the evidence' if sp['stubs'] else ''))))
    else:
        out['not_applicable'].append(dict(property=i, reason=NA.get(i, 'no check has been built for it')))
json.dump(out, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(out['checks']), 'checks,', len(out['not_applicable']), 'not applicable')
