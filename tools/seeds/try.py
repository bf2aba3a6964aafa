#!/usr/bin/env python3
"""Tries bug ideas before they get a demonstration: applies each, builds, runs the stable tests and the property's quick check.
usage: try.py FILE [ids...]   FILE defines T(id, property, [(file, old, new)...]) entries."""
import sys,os,subprocess
WT=os.environ.get('SEEDWT','/tmp/rv')
ideas=[]
def T(id,prop,*subs): ideas.append((id,prop,subs))
ns={'T':T,'CL':'rtspclient.go','RQ':'rtsprequest.go','RP':'rtspparser.go','PA':'rtpparser.go','TN':'tcpnetwork/tcpnetwork.go','SP':'sdpparser.go','SD':'sdp/decoder.go','SF':'sdp/fields.go','SE':'sdp/encoder.go','SS':'sdp/sdp.go','WS':'websocketconn.go','AU':'authenticator.go','H4':'h264rtpparser.go','H5':'hevcrtpparser.go','MK':'markrtpparser.go','SM':'simplertpparser.go'}
exec(open(sys.argv[1]).read(),ns)
only=sys.argv[2:]
def sh(cmd): return subprocess.run(cmd,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace')
def reset(): sh(f'git -C {WT} checkout -q -- . && git -C {WT} clean -fdq; git -C {WT} checkout -q --detach $(git -C /repo rev-parse HEAD)')
def one(id,prop,subs):
    reset()
    for f,o,n in subs:
        p=f'{WT}/{f}'; t=open(p,newline='').read(); crlf='\r\n' in t; t=t.replace('\r\n','\n')
        if t.count(o)!=1: return f'PATCH {t.count(o)} times: {o[:70]!r}'
        t=t.replace(o,n,1)
        open(p,'w',newline='').write(t.replace('\n','\r\n') if crlf else t)
    r=sh(f'cd {WT} && go build ./... && go vet . ./sdp ./tcpnetwork')
    if r.returncode: return 'BUILD '+r.stdout[-400:]
    r=sh(f'cd {WT} && go test ./... 2>&1 | grep -a -E "^ *--- FAIL|panic:" | grep -a -v -E "TestDecoder_Errors( |/sdp_session_ex_err[89])"')
    if r.stdout.strip(): return 'TESTS '+r.stdout[-300:]
    out=[]
    for p in prop.split():
        r=sh(f'cd /verif && VREPO={WT} VH_OUTDIR=/tmp/rvout ./check.sh {p} quick 2>&1')
        v=[l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
        out.append(f'{p} '+('caught' if r.returncode==1 and v else f'MISSED rc={r.returncode}'))
    return '; '.join(out)
for id,prop,subs in ideas:
    if only and id not in only: continue
    print(id,':',one(id,prop,subs),flush=True)
reset()
