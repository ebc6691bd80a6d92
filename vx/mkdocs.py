#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from PROPERTIES below and props.PROPS."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
from statements import E2E, S, NOT_APPLICABLE

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in S:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p.get('over', ['inputs']), 'text': p['all']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['where']]},
        }) + '\n')
checks = []
na = []
for p in S:
    i = p['id']
    if i in PROPS:
        q = PROPS[i]
        checks.append({'property': i, 'quick_cmd': f'python3 vx/check.py {i} quick', 'thorough_cmd': f'python3 vx/check.py {i} thorough',
                       'technique': q['technique'], 'level': q['level'], 'level_note': q['level_note']})
    else:
        na.append({'property': i, 'reason': NOT_APPLICABLE[i]})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: the contracts are added to a scratch copy of the crate (vx/scratch.py) or to mechanically extracted functions (vx/vex.py).'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')

# DESIGN.md: fixed parts, and per property what decides it
import glob
import re


def harness_lines(name):
    out = []
    for l in open(os.path.join(V, 'contracts', name + '.rs')):
        m = re.match(r'//@(kani|native) (\w+)(.*)', l)
        if m:
            kind = m[1]
            if kind == 'kani':
                b = re.search(r'bounded="([^"]*)"', m[3])
                out.append(('Kani, bounded: ' + b[1] if b else 'Kani', m[2]))
            else:
                n = re.search(r'iters=(\d+)', m[3])
                out.append((f'executed, {n[1]} inputs' if n else 'executed', m[2]))
    return out


doc = [open(os.path.join(V, 'vx', 'design_head.md')).read(), '## The properties\n']
for p in S:
    i = p['id']
    doc.append(f"### {i} {p['title']}\n")
    if i not in PROPS:
        doc.append(f'Not applicable: {NOT_APPLICABLE[i]}\n')
        continue
    q = PROPS[i]
    doc.append(f"- Level: {q['level']}. {q['technique'][0].upper() + q['technique'][1:]}.")
    doc.append(f"- {q['level_note']}")
    for u in q.get('verus', []):
        fns = re.findall(r'(?m)^\s*//@fn (\S+)', open(os.path.join(V, 'verus', u + '.rs')).read())
        doc.append(f"- Verus unit `verus/{u}.rs`, functions under contract: " + ', '.join(f'`{f}`' for f in fns) + '.')
    for h in q.get('contracts', []):
        hs = harness_lines(h)
        if hs:
            doc.append(f"- `contracts/{h}.rs`: " + '; '.join(f'`{fn}` ({k})' for k, fn in hs) + '.')
    if q.get('trusted'):
        doc.append('- Trusted: ' + '; '.join(q['trusted']) + '.')
    if q.get('assumptions') and q['assumptions'] != ['bounded']:
        doc.append('- Assumed: ' + '; '.join(q['assumptions']) + '.')
    doc.append(f"- Beyond the tests: {p['why'].replace(E2E, '')}\n")
doc.append('## Planted bugs\n\nEach compiles and passes the existing tests (`vx/plant.py` confirms it together with its demonstration).\n')
doc.append('| bug | property | what it breaks | needs | caught by |\n|---|---|---|---|---|')
cp = os.path.join(V, 'vx', 'seed_catches.json')
catches = json.load(open(cp)) if os.path.exists(cp) else {}
for d in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    m = json.load(open(d))
    n = os.path.basename(os.path.dirname(d))
    doc.append(f"| {n} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {catches.get(n, '')} |")
doc.append('')
doc.append(open(os.path.join(V, 'vx', 'design_tail.md')).read())
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(doc))
