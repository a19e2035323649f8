#!/bin/bash
# try.sh module "variants" "tests" cases [seed]: run directly, print failures
m=$1; cd "$(dirname "$0")/.."
python3 tools/build.py $(for v in $2; do echo $m:$v; done) || exit 1
rm -f /tmp/o_$m.*.json
exec 3>&2 2>/dev/null
for v in $2; do for t in ${3:-$(build/$v/mon_$m --test list x | cut -d' ' -f1)}; do
 for s in 0 1 2 3 4 5 6 7; do (timeout 300 build/$v/mon_$m --test $t --cases $4 --seed ${5:-1} --shard $s --shards 8 --out /tmp/o_$m.$v.$t.$s.json >/dev/null 2>/tmp/e_$m.$v.$t.$s; rc=$?; [ $rc = 0 ] || { [ $s = 0 ] && { echo "$v $t rc $rc"; tail -4 /tmp/e_$m.$v.$t.$s | cut -c1-300; } }) & done; wait
 echo "$v $t fails $(cat /tmp/o_$m.$v.$t.*.json | grep -c '"fail"')"
done; done
cat /tmp/o_$m.*.json | grep '"t":"fail"' | cut -c1-700 | head -${6:-8}
cat /tmp/o_$m.*.json | python3 -c "
import sys,json
from collections import Counter
k=Counter();c=Counter();ran=nt=sk=0
for l in sys.stdin:
    d=json.loads(l)
    if d['t']=='fail': k[d['key']]+=1
    else:
        c.update(d['counts']); ran+=d['ran']; nt+=d['nontrivial']; sk+=d['skipped']
print(dict(k.most_common(20))); print('ran',ran,'nontrivial',nt,'skipped',sk); print({a:b for a,b in sorted(c.items())})" | cut -c1-3000
