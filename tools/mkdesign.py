#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md: harnesses with their bounds per property, planted bugs, fixes."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import PROPS
out = []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)
    c = PROPS.get(p['id'])
    out.append('### %s %s\n' % (p['id'], p['title']))
    note = os.path.join(V, 'tools', 'notes.json')
    n = json.load(open(note)).get(p['id'])
    if n:
        out.append(n + '\n')
    for u in c['units']:
        for e in u['entries']:
            out.append('- `%s` (%s): %s' % (e['name'], u['src'], e['bound']))
    for s in c['stubs']:
        out.append('- stand-in: ' + s)
    out.append('')
gen = {'properties': '\n'.join(out)}
rows = ['| planted bug | property | what it breaks | caught |', '|---|---|---|---|']
res = os.path.join(V, 'tools', 'seedresults.json')
R = json.load(open(res)) if os.path.exists(res) else {}
for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', d, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['what_it_breaks'].replace('|', '/'), R.get(d, '?')))
gen['planted'] = '\n'.join(rows)
k = json.load(open(os.path.join(V, 'known_findings.json')))
by = {}
for f in k['fixed']:
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', f)
    by.setdefault(m[1], []).append('%s (%s)' % (m[3], m[2]))
gen['fixes'] = '\n'.join('- **%s**: %s' % (p, '; '.join(by[p])) for p in sorted(by))
f = os.path.join(V, 'DESIGN.md')
t = open(f).read()
for name, body in gen.items():
    t = re.sub(r'(<!-- begin %s -->\n).*?(<!-- end %s -->)' % (name, name), lambda m: m[1] + body + '\n' + m[2], t, flags=re.S)
open(f, 'w').write(t)
