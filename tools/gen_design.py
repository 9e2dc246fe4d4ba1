#!/usr/bin/env python3-vt
"""Writes /verif/DESIGN.md; run with python3-vt."""
import ast
import importlib
import json
import os
import sys

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H, '/repo']
sys.dont_write_bytecode = True
props = [json.loads(x) for x in open(os.path.join(H, 'properties.jsonl'))]
seeded = json.load(open(os.path.join(H, 'tools/seeded_results.json')))
out = [open(os.path.join(H, 'tools/design_head.md')).read().rstrip(), '']
for p in props:
    i = p['id']
    f = os.path.join(H, 'pbt/checks', i.lower() + '.py')
    doc = ast.get_docstring(ast.parse(open(f).read())).replace('\n', ' ')
    m = importlib.import_module('pbt.checks.' + i.lower())
    out += ['### %s %s' % (i, p['title']), '', doc.split(': ', 1)[1][0].upper() + doc.split(': ', 1)[1][1:], '',
            '| sub-check | cases quick / thorough | what |', '|---|---|---|']
    for s in m.SUBS:
        n = 'enumerated' if getattr(s, 'cases', None) else '%s / %s' % (s.quick, s.thorough)
        out.append('| %s | %s | %s |' % (s.name, n, s.rule))
    out.append('')
    if getattr(m, 'ASSUMPTIONS', None):
        out += ['Assumptions: ' + '; '.join(m.ASSUMPTIONS) + '.', '']
    mine = [(b, r) for b, r in sorted(seeded.items()) if r['property'] == i]
    if mine:
        out += ['Planted bugs: ' + ', '.join('`%s` (%s)' % (b, r['sub'] if r['result'] == 'caught' else r['result'].upper())
                                             for b, r in mine) + '.', '']
caught = sum(r['result'] == 'caught' for r in seeded.values())
out += ['## 6. Planted bugs', '',
        '%d changes were planted (`seeded/`), each passing the stable tests, with a demonstration; %d are caught by the quick check of '
        'their property at VERIF_SEED=1. The sub-check that caught each is given above in parentheses. What each breaks and needs:' % (
            len(seeded), caught), '', '| bug | property | caught by | what it breaks | needs |', '|---|---|---|---|---|']
for b, r in sorted(seeded.items()):
    meta = json.load(open(os.path.join(H, 'seeded', b, 'meta.json')))
    out.append('| %s | %s | %s | %s | %s |' % (b, r['property'], r['sub'] if r['result'] == 'caught' else '**%s**' % r['result'],
                                              meta['what_it_breaks'].replace('|', '/').replace('\n', ' '),
                                              meta['needs'].replace('|', '/').replace('\n', ' ')))
open(os.path.join(H, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
print(len(out), 'lines')
