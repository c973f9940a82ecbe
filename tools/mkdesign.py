#!/usr/bin/env python3
"""assembles DESIGN.md from the head and tail texts, the properties, the harness bounds, findings and seeds"""
import json,re,glob,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
o=open(V+'/tools/design_head.md').read()
o+='## 2. Properties and how each is decided\n\nAll by the method above; per harness its bound (quick unless stated; the properties listed in harness/deep.txt use the thorough bounds in the quick tier too).\n\n'
APPROACH=json.load(open(V+'/tools/approach.json'))
for l in open(V+'/properties.jsonl'):
    r=json.loads(l); i=r['id']
    o+=f"### {i} {r['title']}\n\n{APPROACH[i]}\n\n"
    for f in sorted(glob.glob(f'{V}/harness/{i.lower()}/*.go')):
        b=None
        for ln in open(f):
            m=re.match(r'\s*// bound: (.*)',ln)
            if m: b=m.group(1)
            m=re.match(r'func (H\w+)\(',ln)
            if m and b: o+=f"* `{m.group(1)}`: {b.strip()}\n"; b=None
    o+='\n'
t=open(V+'/tools/design_tail.md').read()
k=json.load(open(V+'/known_findings.json')); k=k if isinstance(k,list) else k['findings']
fs='\n'.join('* '+x['what'] for x in k)
ss='| change | property | needs | caught by |\n|---|---|---|---|\n'
for m in sorted(glob.glob(V+'/seeded/*/meta.json')):
    r=json.load(open(m)); s=os.path.basename(os.path.dirname(m))
    ss+=f"| {s} | {r['property']} | {r['needs']} | {r['property']} |\n"
o+=t.replace('@FINDINGS@',fs).replace('@SEEDS@',ss)
open(V+'/DESIGN.md','w').write(o)
