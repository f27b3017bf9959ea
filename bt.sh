#!/bin/bash
# developer helper: bt.sh PROP SEED -> threads with their repo/scenario frames
cd /verif
B=$(python3 build.py ${T:-arpc} $1|awk '{print $2}'); $B one --prop $1 --run-seed $2 > /tmp/o.$1 2>&1
grep -E "^ +t[0-9]+ .*bt=" /tmp/o.$1 | awk '!s[$1]++' | while read l; do echo "$l" | cut -c1-90; echo "$l" | sed 's/.*bt=//;s/,/ /g' | xargs addr2line -Cfie $B | paste - - | grep -E "scen/|/repo" | sed 's/<.*>//; s/(.*)//' | cut -c1-160; done
grep -v "bt=" /tmp/o.$1 | tail -${N:-15} | cut -c1-250
