#!/bin/bash
# ts.sh test cases [seed]: run the concurrency monitor, short report
cd "$(dirname "$0")/.."; python3 tools/build.py conc:tsan | tail -1
TSAN_OPTIONS="halt_on_error=1:exitcode=66:history_size=4" build/tsan/mon_conc --test $1 --cases $2 --seed ${3:-1} --out /tmp/ts.json >/dev/null 2>/tmp/ts.err; echo rc $?
grep -E 'WARNING|SUMMARY|^    #[01] |Location' /tmp/ts.err | cut -c1-170 | head -12
grep '"fail"' /tmp/ts.json | cut -c1-500 | head -5; tail -1 /tmp/ts.json | sed 's/"sigs".*//' | cut -c1-2500; rm -f /tmp/ts.json
