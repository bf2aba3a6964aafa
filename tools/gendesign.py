#!/usr/bin/env python3
"""Rewrites the list of planted bugs in DESIGN.md (between the two markers) from seeded/*/meta.json."""
import json,glob,os,re
os.chdir(os.path.dirname(os.path.abspath(__file__))+'/..')
rows={}
for p in sorted(glob.glob('seeded/*/meta.json')):
    m=json.load(open(p)); rows.setdefault(m['property'],[]).append((p.split('/')[1],m['needs']))
out=['| check | planted bugs it catches (what each needs) |','|---|---|']
n=0
for l in open('properties.jsonl'):
    i=json.loads(l)['id']
    if i in rows:
        n+=len(rows[i]); out.append(f'| {i} | '+'; '.join(f'`{a[len(i)+1:]}` ({b})' for a,b in rows[i])+' |')
s=open('DESIGN.md').read()
a,b='<!-- bugs -->','<!-- /bugs -->'
t=f'{a}\n{n} bugs, each caught by the check of its own property (several by others as well).\n\n'+'\n'.join(out)+f'\n{b}'
s=s.replace('DETECTION',a+b) if a not in s else s
s=re.sub(re.escape(a)+'.*?'+re.escape(b),lambda _:t,s,flags=re.S)
open('DESIGN.md','w').write(s)
