#!/bin/bash
# trial.sh TARGET SCENARIO SECS [k=v...]: 8 parallel batches, short summary
cd "$(dirname "$0")/.."; T=$1; S=$2; N=$3; shift 3
mkdir -p build/trial/rp; D=build/trial
for i in 0 1 2 3 4 5 6 7; do ./build/sim_$T batch $S $((${SEED0:-0}+i)) 8 ${MAXRUNS:-1000000} $N $D/$S.$i.json $D/rp "$@" 2>/dev/null & done; wait
python3 - $D/$S <<'P'
import json,sys,collections
t=collections.Counter();f=collections.Counter();p=collections.Counter();v={};
for i in range(8):
    d=json.load(open(f'{sys.argv[1]}.{i}.json'))
    for k in('runs','nontrivial','violationRuns','detChecks','detBad','steps','switches'): t[k]+=d[k]
    f.update(d['faults']);p.update(d['probes'])
    t['wall']=max(t['wall'],d['wall']);t['sim']+=d['simTime']
    if d['error']:print('ERROR',d['error'][:600])
    for x in d['violations']: v.setdefault(x['class'],[]).append(x)
print(dict(t));print(dict(f));print(dict(p))
for c,l in v.items():
    for x in l[:3]: print(c,x['seed'],x['message'][:700])
P
