#!/usr/bin/env python3
"""mutate.py OUT.jsonl [-j N] [-k MODULUS:REST] FILE...   mutants of the given files of the repository against the checks.
Each mutant that compiles and passes the tests is run against the checks, likely ones first, until one reports it."""
import sys,os,subprocess,json,shutil,tempfile,threading,queue,re
repo=os.environ.get('MREPO','/repo'); verif=os.environ.get('MVERIF','/verif')
env=dict(os.environ,GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='',GOWORK='off')
def sh(cmd,timeout=300,**k):
    try:
        r=subprocess.run(cmd,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=timeout,env=dict(env,**k.pop('e',{})),**k)
        return r.returncode,r.stdout.decode('utf8','replace')
    except subprocess.TimeoutExpired: return 124,'timeout'
ORDER={'sdp/':'S01 S02 S08 S06 S07 S04 S03 S05 R02 H01'.split(),
 'sdpparser.go':'S05 R02 D04 H01'.split(),
 'rtp':'D01 D02 D03 D04 D05 D06 D07 T02 H01 L02 R07'.split(),
 'authenticator.go':'R04 R01 H01 L03'.split(),
 'rtsprequest.go':'R02 R03 R04 R06 L03 W01'.split(),
 'rtspparser.go':'R06 T03 R01 R04 H01'.split(),
 'tcpnetwork/':'T01 T02 T03 T04 L01 L04 W01 L02 H01 C01'.split(),
 'websocketconn.go':'W01 T04 L01 L04 C01 H01'.split(),
 'rtspclient.go':'R01 R02 R05 R07 L02 L03 R06 T03 L01 L04 W01 D05 H01 C01'.split()}
def order(f):
    first=[]
    for k,v in ORDER.items():
        if f.startswith(k) or (k=='rtp' and ('rtp' in f and f not in ('rtspparser.go',) and not f.startswith(('rtsp','sdp')))): first=v; break
    return first
args=sys.argv[1:]; out=args.pop(0); jobs=3; mod=(1,0); cases={}
while args and args[0].startswith('-'):
    a=args.pop(0)
    if a=='-j': jobs=int(args.pop(0))
    if a=='-k': mod=tuple(map(int,args.pop(0).split(':')))
files=args
r,o=sh(f'cd {verif}/tools/mutate && go build -o /tmp/mutlist main.go && /tmp/mutlist '+' '.join(f'{repo}/{f}' for f in files))
ms=[json.loads(l) for l in o.splitlines() if l.startswith('{')]
for i,m in enumerate(ms): m['n']=i; m['file']=os.path.relpath(m['file'],repo)
done=set()
if os.path.exists(out): done={(d['file'],d['Off'],d['End'],d['New']) for d in map(json.loads,open(out))}
ms=[m for m in ms if m['n']%mod[0]==mod[1] and (m['file'],m['Off'],m['End'],m['New']) not in done]
print(len(ms),'mutants',flush=True)
fast={'S01':12000,'S02':24000,'S03':24000,'S04':50000,'S06':8000,'S07':30000,'S08':15000,'C01':48,'T02':80,'L01':400,'L04':400,'L03':300,'R05':300}
allowed=set(json.load(open('/opt/vp/BASELINE.json')).get('stable_pass',[])) if False else None
q=queue.Queue(); lock=threading.Lock()
for m in ms: q.put(m)
def one(m,wd):
    tree=f'{wd}/tree'; 
    if os.path.isdir(tree): shutil.rmtree(tree)
    shutil.copytree(repo,tree,ignore=shutil.ignore_patterns('.git'))
    p=f'{tree}/{m["file"]}'; s=open(p,'rb').read()
    open(p,'wb').write(s[:m['Off']]+m['New'].encode()+s[m['End']:])
    rc,o=sh(f'cd {tree} && go build . ./sdp ./tcpnetwork')
    if rc: return 'nocompile',''
    if m['file'].startswith('sdp/'):
        rc,o=sh(f'cd {tree} && go test ./sdp 2>&1',timeout=60)
        bad=set(re.findall(r'--- FAIL: (\S+)',o))-{'TestDecoder_Errors','TestDecoder_Errors/sdp_session_ex_err8','TestDecoder_Errors/sdp_session_ex_err9'}
        if bad or 'panic' in o or rc==124: return 'tests',''
    h=f'{wd}/h'
    if not os.path.isdir(h): os.makedirs(h)
    mod_=open(f'{verif}/harness/go.mod').read().replace('=> /repo','=> '+tree)
    open(f'{h}/go.mod','w').write(mod_); shutil.copy(f'{verif}/harness/go.sum',f'{h}/go.sum')
    first=order(m['file'])
    rest=[]
    if m['file'].startswith('sdp/'): rest=['R02']
    for race in ('','-race'):
        todo=[c for c in first+rest if (c=='C01')==(race!='')]
        if not todo: continue
        rc,o=sh(f'cd {verif}/harness && go test -c {race} -vet=off -mod=mod -modfile={h}/go.mod -o {h}/vh .')
        if rc: return 'harness',o[-300:]
        for c in todo:
            e={'VH_VERIF':f'{wd}/out','VH_CORPUS':f'{verif}/harness/corpus','VH_PAR':'2','GOMAXPROCS':'4','TMPDIR':f'{wd}/tmp'}
            os.makedirs(f'{wd}/out',exist_ok=True); os.makedirs(f'{wd}/tmp',exist_ok=True)
            shutil.copy(f'{verif}/KNOWN_FINDINGS.txt',f'{wd}/out')
            if c in fast: e['VH_CASES']=str(fast[c])
            else: e['VH_CASES']='800'
            rc,o=sh(f'{h}/vh {c} quick',timeout=400,e=e)
            if rc not in (0,3): return 'killed' if rc==1 else f'rc{rc}',c
    return 'SURVIVED',''
ALL=[json.loads(l)['id'] for l in open(f'{verif}/properties.jsonl')]
def work(k):
    wd=f'/tmp/mut/{k}'; os.makedirs(wd,exist_ok=True)
    while True:
        try: m=q.get_nowait()
        except queue.Empty: return
        try: v,c=one(m,wd)
        except Exception as ex: v,c='error',repr(ex)
        m['verdict']=v; m['by']=c
        with lock:
            open(out,'a').write(json.dumps(m)+'\n')
            if v in('SURVIVED','error','harness') or v.startswith('rc'): print(v,c,f'{m["file"]}:{m["line"]} {m["Old"][:60]!r} -> {m["New"][:60]!r}',flush=True)
ts=[threading.Thread(target=work,args=(k,)) for k in range(jobs)]
[t.start() for t in ts]; [t.join() for t in ts]
shutil.rmtree('/tmp/mut',ignore_errors=True)
