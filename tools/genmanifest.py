#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json,os
base=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids=[json.loads(l)['id'] for l in open(base+'/properties.jsonl')]
FE={'T02','L01','L04','R01','R02'}
TECH={
'C02':'differential monitor on a virtual clock: concurrent sessions, some hostile, against each session alone',
'M':'heap and goroutine monitor over phases of identical traffic',
'T':'runtime monitor over recorded byte streams and event logs, virtual clock, scheduled reads, injected faults',
'R':'protocol monitor on the wire transcript of a scripted server, independent reference parser and digest',
'L':'bounded-progress and quiescence monitors on a virtual clock with injected faults and delays',
'H':'crash monitor of worker processes under hostile byte streams',
'C':'Go race detector under concurrent, jittered workloads',
'D':'delivery monitor against independent packetizers',
'W':'differential monitor, WebSocket against TCP, hand-written WebSocket server',
'S':'runtime oracles (reference encoder, round trip, metamorphic, known-bad mutations) over generated descriptions'}
NOTE={
'C02':'Requests, events, results and media, with their virtual times, are those of the session run alone, on the combinations counted. Trusts synctest and the in-memory transport.',
'M':'Live heap after garbage collection grows by less than 512 KiB (20 MiB where a unit of 8 MiB is being put together) over at least four phases of thousands of events; slower leaks are not seen.',
'T':'Holds on the executions counted in the evidence. Trusts the in-memory transport, testing/synctest and the reference model of the framing.',
'R':'Holds on the conversations counted in the evidence; the server, request parser and digest are written independently of the repository.',
'L':'Bounded time is judged on the virtual clock of testing/synctest, at the 2 s and 5 s limits the library documents, plus margin; leaks are judged at quiescence. Trusts synctest and the goroutine dump.',
'H':'No crash on the inputs counted; attribution by the first own frame of the failing goroutine.',
'C':'No race report whose accesses belong to the library on the schedules counted. The detector sees only what was executed; bookkeeping of the harness is hidden from it so that it adds no ordering.',
'D':'Delivered buffers equal what went into independent packetizers, for the streams counted.',
'W':'Same requests, outcome, events and media as over TCP for the conversations counted.',
'S':'Holds on the generated descriptions counted; reference encoder and generators are written from RFC 4566, independently of the repository.'}
m={'version':1,
'setup_cmd':'./setup.sh',
'checks':[{'property':i,'quick_cmd':f'./check.sh {i} quick','thorough_cmd':f'./check.sh {i} thorough','evidence_file':f'evidence/{i}.json',
 'technique':TECH.get(i) or TECH[i[0]],'level':'fault_enumeration' if i in FE else 'exploration','level_note':NOTE.get(i) or NOTE[i[0]]} for i in ids],
'not_applicable':[],
'notes':'No hooks: the checks drive the repository through its exported API from an external module that is rebuilt from the working tree on every run.'}
json.dump(m,open(base+'/MANIFEST.json','w'),indent=1)
open(base+'/MANIFEST.json','a').write('\n')
