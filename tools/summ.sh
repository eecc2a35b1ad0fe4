#!/bin/bash
# developer aid: run a check exhaustively and summarise the violations
cd /verif; VERIF_NOSTOP=1 timeout 3000 python3 tools/check.py "$@" > /tmp/o.$1 2>&1
grep "^  violation" /tmp/o.$1 | sed 's/|.*//' | sort | uniq -c | sort -rn | cut -c1-200 | head -60
grep -A1 "^  violation" /tmp/o.$1 | grep "^    " | sort | uniq -c | sort -rn | cut -c1-${CUT:-220} | head -${LINES_:-12}
head -1 /tmp/o.$1; grep CAPPED /tmp/o.$1; tail -1 /tmp/o.$1 | cut -c1-300
