#!/bin/bash
# run the bounded halves of all properties: runall.sh [tier] [seed] [budget]
cd "$(dirname "$0")/.."
mkdir -p /tmp/ra
for i in $(seq -w 1 21); do echo $i; done | xargs -P 7 -I{} sh -c "timeout 600 /opt/venv/bin/python rt/run.py C{} --tier ${1:-quick} --seed ${2:-1} --budget ${3:-60} --out /tmp/ra/C{}.json 2>/tmp/ra/C{}.txt || echo C{} exit"
for i in $(seq -w 1 21); do python3 - C$i <<'P'
import json,sys
p=sys.argv[1]
try: r=json.load(open(f'/tmp/ra/{p}.json'))
except Exception as e:
    print(p,'NO OUTPUT',open(f'/tmp/ra/{p}.txt').read()[-800:]);sys.exit()
print(p,r['evaluations'],round(r['wall_s'],1),r.get('truncated'),len(r['failures']),[k['what'] for k in r['known_stale']])
for f in r['failures']: print('    ',f['message'][:200],'|',json.dumps(f['case'])[:600])
P
done
