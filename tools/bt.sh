#!/bin/bash
# bt.sh module variant test cases seed [shard]: where does the first abort happen?
cd "$(dirname "$0")/.."; gdb -q -batch -ex run -ex bt --args build/$2/mon_$1 --test $3 --cases $4 --seed ${5:-1} --shard ${6:-0} --shards 8 --out /tmp/bt.json 2>/tmp/bt.err | grep -E "^#" | cut -c1-160 | sed -n '7,12p'
