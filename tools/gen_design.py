#!/usr/bin/env python3
"""Compose DESIGN.md from the hand-written parts, the harnesses, the findings and the planted bugs."""
import json, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H); sys.path.insert(0, H + '/tools')
from checks import CHECKS
from design_props import P
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
fixed = {}
for k in json.load(open(H + '/known-findings.json')): fixed.setdefault(k['property'], []).append(k)
out = [open(H + '/tools/design_head.md').read(), '\n## 2. Properties\n\nNumbers behind a scenario: quick/thorough bound (mcrt: deviations; seq: history depth; 0 = the inputs are enumerated without histories).\n']
for p in props:
    i = p['id']; c = CHECKS[i]
    out.append('### %s %s\n' % (i, p['title']))
    out.append('Anchors: %s. %s\n' % (', '.join(p['anchors']['files']), P[i]))
    why = p.get('why_tests_cant')
    sc = []
    for h, kind in c['harnesses']:
        t = open(H + '/harness/%s.cpp' % h).read()
        s = ['%s %s/%s' % m for m in re.findall(r'^(?:MC_SCENARIO|SEQ_TEST)\((\w+), (\d+), (\d+)', t, re.M)]
        sc.append('`harness/%s.cpp` (%s): %s' % (h, {'mc': 'mcrt', 'seq': 'seq'}[kind], ', '.join(s)))
    out.append('; '.join(sc) + '.\n')
    if why: out.append('Beyond the tests: %s\n' % why)
    if i in fixed: out.append('Repaired: ' + '; '.join('%s (%s)' % (k['what'], k['commit']) for k in fixed[i]) + '.\n')
out.append(open(H + '/tools/design_tail.md').read())
res = json.load(open(H + '/tools/seed_results.json'))
out.append('| change | property | needs | caught by | remark |\n|---|---|---|---|---|')
for d in sorted(os.listdir(H + '/seeded')):
    m = json.load(open(H + '/seeded/%s/meta.json' % d)); r = res.get(d, {})
    out.append('| %s | %s | %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/'), r.get('caught', '?'), r.get('remark', '')))
out.append('')
open(H + '/DESIGN.md', 'w').write('\n'.join(out))
