#!/usr/bin/env python3
"""Writes harness/case_ref.hpp from Python's own Unicode data (unconditional full case mappings).  Independent of the repository."""
import unicodedata, os
out = ['// Generated by tools/gencase.py from Unicode %s. Code points whose mapping differs from themselves.' % unicodedata.unidata_version,
       '#pragma once', '#include <stdint.h>', 'struct CaseRef { uint32_t cp, to[3]; };']
for name, f in (('upper', str.upper), ('lower', str.lower)):
    rows = []
    for c in range(0x110000):
        if 0xd800 <= c < 0xe000:
            continue
        r = [ord(x) for x in f(chr(c))]
        if r != [c]:
            rows.append('{%d,{%s}}' % (c, ','.join(map(str, (r + [0, 0])[:3]))))
    out.append('static const CaseRef ref_%s[%d] = {' % (name, len(rows)))
    out += [','.join(rows[i:i + 6]) + ',' for i in range(0, len(rows), 6)]
    out.append('};')
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness', 'case_ref.hpp'), 'w').write('\n'.join(out) + '\n')
