#!/usr/bin/env python3
"""Writes /verif/seeded/<id> from the bug lists and validates each. usage: build.py [-n] [ids...]  (-n: skip running our checks)"""
import sys,os,subprocess,json,shutil,importlib,tempfile,re
here=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,here)
mods=sorted(f[:-3] for f in os.listdir(here) if re.match(r'bugs\d+\.py$',f))
bugs={}
for m in mods:
    for b in importlib.import_module(m).BUGS: bugs[b['id']]=b
# ideas that turned out to break existing tests or nothing at all, or to change only lines of our own fixes
for i in 'L01-send-waits D02-ap-first-only S02-getline-alias D01-stap-large S01-ttl-lost S01-ports-number S04-compact-hours S04-negative-offset \
H01-negative-content-length R03-first-session-id R04-pause-method L04-send-routine-leaks C01-status-plain W01-text-message S05-fmtp-unquoted R03-control-upper-case S07-ttl-range S02-byte-type S07-odd-zones R03-start-float L03-gate-reset L03-nil-conn L03-close-nil L03-wait-nil R06-tab'.split(): bugs.pop(i,None)
args=sys.argv[1:]
nocheck='-n' in args; args=[a for a in args if a!='-n']
WT=os.environ.get('SEEDWT','/tmp/rv'); out='/verif/seeded'
def sh(cmd,**k): return subprocess.run(cmd,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors="replace",**k)
def reset(): sh(f'git -C {WT} checkout -q -- . && git -C {WT} clean -fdq'); sh(f'git -C {WT} checkout -q --detach $(git -C /repo rev-parse HEAD)')
SDP5='''package main

func main() {
	sdp := "v=0\\r\\no=- 1 1 IN IP4 127.0.0.1\\r\\ns=x\\r\\nt=0 0\\r\\nm=video 0 %s\\r\\na=rtpmap:96 X/90000\\r\\n%s\\r\\na=control:t\\r\\n"
	url, l := serve(func(p *peer) {
		p.accept(sdp, "1")
		p.request()
	})
	defer l.Close()
	p := newPlayer()
	err := p.Play(url + "/x")
	check(err == nil, "play: %%v", err)
	m := p.RtpMediaMap[0]
	check(%s, "%%+v", m)
	p.Close()
}
'''
base=subprocess.run("git -C /repo rev-list --max-parents=0 HEAD; git -C /repo rev-parse d5b5e68",shell=True,stdout=subprocess.PIPE,text=True).stdout.split()[-1]
origin=set(subprocess.run(f"git -C /repo rev-list {base}",shell=True,stdout=subprocess.PIPE,text=True).stdout.split())
def baselines(f):
    r=subprocess.run(['git','-C','/repo','blame','--porcelain','HEAD','--',f],stdout=subprocess.PIPE).stdout.decode('utf8','replace')
    ok=set()
    for l in r.split('\n'):
        m=re.match(r'^([0-9a-f]{40}) \d+ (\d+)',l)
        if m and m.group(1) in origin: ok.add(int(m.group(2)))
    return ok
stable=None
def build(b):
    reset()
    for f in sorted({s[0] for s in b['subs']}):
        p=f'{WT}/{f}'; t=open(p,newline='').read(); crlf='\r\n' in t; t=t.replace('\r\n','\n')
        for (ff,o,n) in b['subs']:
            if ff!=f: continue
            c=t.count(o)
            if c!=1:
                if c==0 or not b.get('all'): return f'PATCH old text {c} times in {f}: {o[:60]!r}'
            t=t.replace(o,n,1)
        if crlf: t=t.replace('\n','\r\n')
        open(p,'w',newline='').write(t)
    diff=subprocess.run(['git','-C',WT,'diff'],stdout=subprocess.PIPE).stdout
    # lines removed that are the original repository's
    nb=ns=0; cur=None; ln=0
    for l in diff.decode('utf8','replace').split('\n'):
        if l.startswith('--- a/'): cur=l[6:].strip(); base_l=baselines(cur)
        elif l.startswith('@@'): ln=int(re.match(r'@@ -(\d+)',l).group(1))
        elif l.startswith('-') and not l.startswith('---'):
            if ln in base_l: nb+=1
            else: ns+=1
            ln+=1
        elif l.startswith('+') or l.startswith('\\'): pass
        else: ln+=1
    d=f'{out}/{b["id"]}'
    if os.path.isdir(d): shutil.rmtree(d)
    os.makedirs(d)
    open(f'{d}/patch.diff','wb').write(diff)
    demo=b['demo']
    if demo.startswith('SDP5:'):
        a,c,fm=demo[5:].split('|'); demo=SDP5%(fm,a,c)
    elif demo.startswith('WS_'):
        demo=open(f'{here}/{demo.lower()}.go').read()
    open(f'{d}/main.go','w').write(demo)
    shutil.copy(f'{here}/helper.go',d); shutil.copy(f'{here}/demo.sh',d); os.chmod(f'{d}/demo.sh',0o755)
    if b['flags']: open(f'{d}/flags','w').write(b['flags']+'\n')
    json.dump({'property':b['prop'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(f'{d}/meta.json','w'),indent=1)
    note=f'base-lines-removed={nb} own={ns}'
    r=sh(f'cd {WT} && go build ./... && go vet . ./sdp ./tcpnetwork')
    if r.returncode: return 'BUILD '+r.stdout[-600:]
    r=sh(f'cd {WT} && go test ./... 2>&1 | grep -a -E "^ *--- FAIL|panic:" | grep -a -v -E "TestDecoder_Errors( |/sdp_session_ex_err[89])"')
    if r.stdout.strip(): return 'TESTS '+r.stdout[-300:]
    r=sh(f'cd /repo && bash {d}/demo.sh')
    if r.returncode: return 'DEMO-CLEAN '+r.stdout[-600:]
    r=sh(f'cd {WT} && bash {d}/demo.sh')
    if r.returncode==0: return 'DEMO-PATCHED passes'
    note+=' demo['+r.stdout.strip().replace('\n',' ')[-90:]+']'
    if nocheck: return 'ok '+note
    r=sh(f'cd /verif && VREPO={WT} VH_OUTDIR=/tmp/rvout ./check.sh {b["prop"]} quick 2>&1')
    v=[l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
    note+=f' check rc={r.returncode} {"CAUGHT" if r.returncode==1 and v else "MISSED "+r.stdout[-300:]}'
    return 'ok '+note
todo=args or [i for i in bugs if not os.path.isdir(f'{out}/{i}')]
for i in todo:
    print(i,':',build(bugs[i]),flush=True)
reset()
