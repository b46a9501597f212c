#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, meta.py, the evidence of the last runs (rules), known_findings.jsonl,
seeded/*/meta.json and tools/design_tail.md."""
import json, os, sys, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
import meta
cost = json.load(open(R + '/tools/cost.json')) if os.path.exists(R + '/tools/cost.json') else {}
find = [json.loads(l) for l in open(R + '/known_findings.jsonl') if l.strip()]
seeds = {os.path.basename(os.path.dirname(p)): json.load(open(p)) for p in sorted(glob.glob(R + '/seeded/*/meta.json'))}
caught = json.load(open(R + '/tools/caught.json')) if os.path.exists(R + '/tools/caught.json') else {}
out = [open(R + '/tools/design_head.md').read().rstrip(), '', '## Properties', '']
for p in meta.P:
    out += ['### %s %s' % (p['id'], p['title']), '', p['statement'].strip(), '', '* Ranges over: ' + p['text'], '* Why tests cannot settle it: ' + p['why'],
            '* Decided by (`checks/%s.py`): %s. %s' % (p['module'], p['technique'], p['expl'])]
    ev = R + '/evidence/%s.json' % p['id']
    c = cost.get(p['id'], {})
    if c.get('rules'):
        out.append('* Rules: ' + '; '.join('**%s** %s' % kv for kv in sorted(c['rules'].items())) + '.')
    out.append('* Bounds: ' + p['note'])
    if c:
        out.append('* Cost: about %s s on top of the 15 s of reading the program; %s obligations on the current tree.' % (c['seconds'], c['obligations']))
    if p['assume']:
        out.append('* Assumes: ' + '; '.join(p['assume']) + '.')
    fx = [f for f in find if f['property'] == p['id'] and f['status'] == 'fixed']
    if fx:
        out.append('* Defects found and repaired: ' + '; '.join('%s (%s)' % (f['what'].split(' ', 3)[-1], f.get('commit', '')) for f in fx) + '.')
    kn = [f for f in find if f['property'] == p['id'] and f['status'] != 'fixed']
    if kn:
        out.append('* Known findings (not repaired): ' + '; '.join(f['what'] for f in kn) + '.')
    sd = [n for n, m in seeds.items() if m['property'] == p['id']]
    if sd:
        out.append('* Planted changes: ' + ', '.join('%s (%s)' % (n, 'caught' if p['id'] in caught.get(n, []) else 'missed') for n in sd) + '.')
    out.append('')
if meta.NA:
    out += ['## Not applicable', '']
    for p in meta.NA:
        out += ['* **%s %s**: %s' % (p['id'], p['title'], p['reason'])]
    out.append('')
if seeds:
    out += ['## Planted changes', '', '| change | property | needs | caught by |', '|---|---|---|---|']
    for n, m in seeds.items():
        out.append('| %s | %s | %s | %s |' % (n, m['property'], m['needs'].replace('|', '\\|').replace('\n', ' '), ', '.join(caught.get(n, [])) or 'none'))
    out.append('')
out.append(open(R + '/tools/design_tail.md').read().rstrip())
open(R + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
