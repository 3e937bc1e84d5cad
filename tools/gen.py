#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run after editing props."""
import json, os, re, sys
sys.dont_write_bytecode = True
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, 'tools'))
from props import PROPS, NOTAPP, NOTE
from methods import METHOD

def mech(s):
    out = []
    for part in s.split(';'):
        part = part.strip()
        if part:
            name, where = part.rsplit('@', 1)
            out.append({'name': name.strip(), 'where': where.strip()})
    return out

with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
        m = mech(p['mech'])
        files = sorted({x['where'].split(':')[0] for x in m} | set(p.get('files', [])))
        for fn in files:
            assert os.path.exists('/repo/' + fn), fn
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'],
            'anchors': {'files': files, 'mechanism': m,
                        'observe_at': p.get('observe', []), 'hook_needed': None},
        }) + '\n')

checks, na = [], []
for p in PROPS:
    d = p['id'].lower()
    pkg = os.path.join(root, 'gopath/src/verifh', d, 'h.go')
    if p['id'] in NOTAPP:
        na.append({'property': p['id'], 'reason': NOTAPP[p['id']]})
    elif os.path.exists(pkg):
        cmd = f'./e check {p["id"]} verifh/{d}'
        checks.append({
            'property': p['id'], 'quick_cmd': cmd, 'thorough_cmd': cmd.replace('check ', 'check -tier thorough '),
            'evidence_file': f'evidence/{p["id"]}.json',
            'technique': 'symbolic execution of the Go SSA of /repo, path conditions and assertions decided by z3/cvc5'
                         + (', schedules explored with partial-order reduction' if 'schedules' in p['over'] else ''),
            'level': 'model_checking', 'level_note': p.get('note', '') + (' ' if p.get('note') else '') + NOTE,
        })
    else:
        na.append({'property': p['id'], 'reason': 'no check built yet'})
json.dump({'version': 1, 'setup_cmd': './build.sh', 'checks': checks, 'not_applicable': na},
          open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')

# the tables of DESIGN.md
def harnesses(d):
    out, buf, opts = [], [], ''
    for l in open(os.path.join(root, 'gopath/src/verifh', d, 'h.go')):
        if l.startswith('//verif:opts'): opts = l.split(None, 1)[1].strip()
        elif l.startswith('// Package') or l.startswith('//go:'): pass
        elif l.startswith('//'): buf.append(l[2:].strip())
        elif l.startswith('func H_'):
            out.append((l[5:].split('(')[0], ' '.join(x for x in buf if x), opts)); buf, opts = [], ''
        else: buf, opts = [], ''
    return out
tab = []
for p in PROPS:
    d = p['id'].lower()
    if p['id'] in NOTAPP: continue
    tab.append(f'### {p["id"]} {p["title"]}\n')
    tab.append('*Method.* ' + METHOD[p['id']] + '\n')
    for n, doc, o in harnesses(d):
        doc = doc[len(n) + 1:].strip() if doc.startswith(n + ':') else doc
        o = ' '.join(x for x in o.split() if not x.startswith(('quick', 'full')))
        tab.append(f'- `{n}`' + (f' ({o})' if o else '') + f': {doc}')
    tab.append('')
seeds = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
try:
    rs = json.load(open(os.path.join(root, 'tools/seeds/results.json')))
except FileNotFoundError:
    rs = {}
for i, r in sorted(rs.items(), key=lambda x: (x[1]['property'], x[0])):
    seeds.append(f"| {i} | {r['property']} | {r['needs']} | {(', '.join(r['by']) or 'caught') if r['caught'] else '**missed**'} |")
dp = os.path.join(root, 'DESIGN.md')
t = open(dp).read()
fixes = ['- ' + l[len('fixed: '):].strip() for l in open(os.path.join(root, 'known-findings.txt')) if l.startswith('fixed:')]
for name, body in (('fixes', '\n'.join(fixes)), ('properties', '\n'.join(tab)), ('seeds', '\n'.join(seeds))):
    a, b = f'<!-- {name} -->', f'<!-- end {name} -->'
    if a in t:
        t = t[:t.index(a) + len(a)] + '\n\n' + body + '\n\n' + t[t.index(b):]
open(dp, 'w').write(t)
