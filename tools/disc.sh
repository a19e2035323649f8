#!/bin/bash
# disc.sh module tests cases: fork one process per corruption, list what the library accepts
m=$1; cd "$(dirname "$0")/.."
python3 tools/build.py $m:upchk || exit 1
rm -f /tmp/o_disc_$m.*
for t in $2; do for s in 0 1 2 3 4 5 6 7; do MON_DISCOVER=1 timeout 800 build/upchk/mon_$m --test $t --cases $3 --seed ${4:-1} --shard $s --shards 8 --out /tmp/o_disc_$m.$t.$s.json >/dev/null 2>/tmp/e_disc & done; wait; done
cat /tmp/o_disc_$m.* | python3 -c "
import sys,json,re
from collections import defaultdict
k=defaultdict(dict); f=set()
for l in sys.stdin:
    d=json.loads(l)
    if d['t']=='fail': f.add(d['key']); continue
    for a,b in d['counts'].items():
        if a.startswith('P '): _,w,i=a.split(' ',2); i=re.sub(r'_(k\dx\d|krnpad)\b|_k\d+x\d+','',i).replace('mli_krn_',''); k[i][w]=k[i].get(w,0)+b
print('fails',f)
for i in sorted(k):
    if set(k[i])!={'refused'}: print(i,k[i])
print(len(k),'classes, fully refused:',sum(set(v)=={'refused'} for v in k.values()))"
rm -f /tmp/o_disc_$m.*
