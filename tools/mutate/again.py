#!/usr/bin/env python3
"""again.py RESULTS.jsonl OUT.jsonl PROPS FILE...   survivors of a mutation run, in the given files, against further checks (at full quick size)."""
import sys,os,subprocess,json
res,out,props=sys.argv[1:4]; files=sys.argv[4:]
old=os.environ.get('MREPO','/repo'); WT=os.environ.get('SEEDWT','/tmp/rv3')
def sh(c): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace')
if not os.path.isdir(WT): sh(f'git -C /repo worktree add --detach {WT} HEAD')
done=set()
if os.path.exists(out): done={tuple(d['key']) for d in map(json.loads,open(out))}
for l in open(res):
    m=json.loads(l)
    if m['verdict']!='SURVIVED' or m['file'] not in files: continue
    key=(m['file'],m['Off'],m['End'],m['New'])
    if key in done: continue
    src=open(f"{old}/{m['file']}",'rb').read(); cur=open(f"/repo/{m['file']}",'rb').read()
    verdict='moved'
    for w in (120,60,30):
        a=src[max(0,m['Off']-w):m['Off']]; b=src[m['End']:m['End']+w]; pat=a+src[m['Off']:m['End']]+b
        if cur.count(pat)==1:
            i=cur.index(pat)+len(a); new=cur[:i]+m['New'].encode()+cur[i+m['End']-m['Off']:]
            sh(f'git -C {WT} checkout -q -- . ; git -C {WT} checkout -q --detach $(git -C /repo rev-parse HEAD)')
            open(f"{WT}/{m['file']}",'wb').write(new); verdict=''
            break
    by=''
    if not verdict:
        verdict='SURVIVED'
        for p in props.split(','):
            r=sh(f'cd /verif && VREPO={WT} VH_OUTDIR=/tmp/againout ./check.sh {p} quick 2>&1')
            if r.returncode==1 and 'VIOLATION' in r.stdout: verdict,by='killed',p; break
            if r.returncode not in(0,1): verdict='rc%d'%r.returncode; break
    open(out,'a').write(json.dumps(dict(m,key=key,verdict=verdict,by=by))+'\n')
    print(verdict,by,f"{m['file']}:{m['line']} {m['Old'][:60]!r} -> {m['New'][:60]!r}",flush=True)
