#!/bin/bash
# dev helper: weave and verify; args: comma list of modules to weave, then verus args
OUT=/tmp/woven; mkdir -p $OUT; find $OUT -type f -delete
/tmp/wt/debug/weaver /repo/src /verif/contracts $OUT "$1" || exit 3
shift
python3 - <<'P'
import json
m=json.load(open('/tmp/woven/map.json'))
for k in ('uncontracted','problems','unused'): 
    if m[k]: print(k, m[k])
P
cd $OUT && verus --crate-type=lib lib.rs "$@" > /tmp/vout.txt 2>&1; head -${LINES_MAX:-100} /tmp/vout.txt; tail -3 /tmp/vout.txt
