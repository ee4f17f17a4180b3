#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, tools/design_tail.md, properties.jsonl, notes.json, evidence/ and seeded/."""
import json, glob, os
root='/verif/'
head=open(root+'tools/design_head.md').read()
tail=open(root+'tools/design_tail.md').read()
notes=json.load(open(root+'tools/notes.json'))
na={x['property']:x['reason'] for x in json.load(open(root+'MANIFEST.json'))['not_applicable']}
seeds={}
for f in sorted(glob.glob(root+'seeded/*/meta.json')):
    m=json.load(open(f)); seeds.setdefault(m['property'],[]).append((f.split('/')[-2],m))
out=[head]
for l in open(root+'properties.jsonl'):
    p=json.loads(l); i=p['id']
    out.append(f"### {i} {p['title']}\n")
    out.append(p['statement']+'\n')
    if i in na:
        out.append('**Not applicable.** '+na[i]+'\n'); continue
    n=notes[i]
    out.append(f"*Technique:* {n['technique']}.\n")
    out.append(f"*Decided, bounds and assumptions:* {n['note']}\n")
    out.append(f"*Why tests can not settle it:* {p['why_tests_cant']}\n")
    ev=root+f'evidence/{i}.json'
    if os.path.exists(ev):
        e=json.load(open(ev))
        out.append('*Rules* (instances on the current tree):\n')
        for r in e['coverage']['rules']: out.append('- '+r)
        out.append('')
    s=seeds.get(i,[])
    if s:
        out.append('*Planted bugs:*\n')
        for name,m in s: out.append(f"- `{name}`: {m['what_it_breaks']} (needs: {m['needs']}); caught by {i}.")
        out.append('')
out.append(tail)
open(root+'DESIGN.md','w').write('\n'.join(out))
