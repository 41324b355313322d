#!/bin/bash
# Runs the stable tests in a copy of the repository ($1).
cd "$1" && go test -json ./... 2>/dev/null | python3 -c "
import json,sys
base=json.load(open('/opt/vp/BASELINE.json'))
ok=set()
for l in sys.stdin:
    try: d=json.loads(l)
    except Exception: continue
    if d.get('Action')=='pass' and d.get('Test'): ok.add(d['Package']+'::'+d['Test']); ok.add(d['Package']+'/'+d['Test']); ok.add(d['Test'])
st=base if isinstance(base,list) else base.get('stable') or base.get('tests') or base.get('passed') or base
if isinstance(st,dict): st=list(st)
miss=[t for t in st if t not in ok and t.split('::')[-1] not in ok]
print(len(st),'stable',len(miss),'missing',miss[:5]); sys.exit(1 if miss else 0)"
