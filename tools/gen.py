#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from the property modules' META."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools.meta import PROPS, NOT_APPLICABLE   # noqa: E402

T = 'test/test_tutorials.py runs the tutorials to the end and asserts ' \
    'nothing about values; '
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p.get('over', ['inputs']),
                           'text': p['quantifier']},
            'why_tests_cant': T + p['why'],
            'anchors': {'files': p['files'],
                        'mechanism': [{'name': n, 'where': w}
                                      for n, w in p['mechanism']],
                        'hook_needed': False}}) + '\n')
na = {n['property'] for n in NOT_APPLICABLE}
man = {'version': 1,
       'setup_cmd': 'sh ./setup.sh',
       'checks': [{
           'property': p['id'],
           'quick_cmd': './check %s --tier quick' % p['id'],
           'thorough_cmd': './check %s --tier thorough' % p['id'],
           'technique': 'symbolic execution of the real Python on z3 terms, '
                        'SMT verdict per path, concrete replay',
           'level': 'model_checking',
           'level_note': p['note']} for p in PROPS
           if p['id'] not in na and not p.get('todo')],
       'not_applicable': NOT_APPLICABLE}
json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)

# DESIGN.md
import re   # noqa: E402
from tools.design import HOW, TAIL   # noqa: E402


def const(pid, name):
    src = open(os.path.join(HERE, 'props', pid.lower() + '.py')).read()
    m = re.search(r'^%s = (\(.*?\)\n|\'.*?\'\n)' % name, src, re.M | re.S)
    return eval(m.group(1)) if m else '-'


def fill(text, ind=''):
    out, line = [], ind
    for w in text.split():
        if len(line) + len(w) > 78 and line.strip():
            out.append(line.rstrip())
            line = ind
        line += w + ' '
    return '\n'.join(out + [line.rstrip()])


out = [open(os.path.join(HERE, 'tools', 'design_head.md')).read()]
for p in sorted(PROPS, key=lambda p: p['id']):
    if p['id'] in na or p.get('todo'):
        continue
    how, secs = HOW.get(p['id'], ('', 0))
    out.append('### %s %s\n' % (p['id'], p['title']))
    out.append(fill(p['statement']) + '\n')
    out.append(fill('Decided by: ' + how + '.') + '\n')
    out.append(fill('Bounds: ' + const(p['id'], 'BOUNDS') + '.  Outside: ' +
                    const(p['id'], 'OUTSIDE') + '.') + '\n')
    out.append('Code: ' + ', '.join('`%s`' % f for f in p['files']) +
               '.  Quick tier: about %d s on 8 cores.\n' % secs)
out.append('## Not applicable\n')
for n in NOT_APPLICABLE:
    out.append(fill('* %s: %s' % (n['property'], n['reason'])))
if not NOT_APPLICABLE:
    out.append('None of the listed properties.')
out.append(TAIL)
kf = json.load(open(os.path.join(HERE, 'known_findings.json')))
out.append('## Defects found by the checks and repaired (`fix:` commits)\n')
for k in kf:
    if 'fixed' in k:
        out.append('* ' + re.sub('^property=', '', k['fixed']))
out.append('\n## Known findings (not repaired)\n')
left = [k for k in kf if 'fixed' not in k]
for k in left:
    out.append('* %s, case %s, %s: %s' % (k['property'], k['case'],
                                          k['label'], k['what']))
if not left:
    out.append('None.')
out.append('\n## Planted bugs (`seeded/`)\n')
out.append('Written from the property and the code alone; each passes the '
           'stable tests.\n\n| bug | property | breaks | needs | caught by '
           '|\n|---|---|---|---|---|')
for d in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    m = json.load(open(os.path.join(HERE, 'seeded', d, 'meta.json')))
    out.append('| %s | %s | %s | %s | %s |' % (
        d, m['property'], m['what_it_breaks'], m['needs'],
        m.get('caught', m['property'])))
open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
