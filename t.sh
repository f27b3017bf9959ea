#!/bin/bash
# developer helper: build and summarise a batch:  t.sh PROP [count] [extra...]
cd /verif
O=$(python3 build.py ${T:-arpc} $1) || { echo "$O" | grep -E "error|undefined" | head -${L:-20}; exit 2; }
B=$(echo "$O" | awk '{print $2}')
P=$1; N=${2:-4000}; shift; shift
rm -f /tmp/tb.*
for w in 0 1 2 3 4 5 6 7; do $B batch --prop $P --seed ${SEED:-1} --count $((N/8)) --worker $w --nworkers 8 --pin --keep-going --out /tmp/tb.$w.json "$@" > /tmp/tb.$w.log 2>&1 & done; wait
cat /tmp/tb.*.log | awk '$1=="V"{print $2,$4}' | sort | uniq -c | sort -rn | head -20
cat /tmp/tb.*.log | grep -v ^V | head -5
cat /tmp/tb.*.log | awk '$1=="V"{k=$2" "$4; if(c[k]++<1) print}' | cut -c1-${W:-400}
python3 - <<'P'
import json,glob
a={}
for f in glob.glob('/tmp/tb.*.json'):
    d=json.load(open(f))
    for k,v in d.items():
        if isinstance(v,(int,float)): a[k]=max(a.get(k,0),v) if k.startswith('max') or k=='wall_s' else a.get(k,0)+v
        elif isinstance(v,dict):
            b=a.setdefault(k,{})
            for x,y in v.items(): b[x]=b.get(x,0)+y
        elif k=='harness_error' and v: print('HARNESS',v)
print({k:v for k,v in a.items() if not isinstance(v,dict)})
print('faults',{k:v for k,v in a['faults'].items() if v}); print('probes',a['probes'])
P
