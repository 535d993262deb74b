#!/bin/bash
# develop: run one harness entry and show the result
cd /verif; bash tools/mk.sh >/tmp/mk.log 2>&1; grep -E "^error" -A8 /tmp/mk.log | head -40
for t in "$@"; do bash tools/run1.sh $t ${LIM:-200} 2>/tmp/run.err; grep -A1 panicked /tmp/run.err|head; python3 tools/show.py $t ; done
