#!/bin/bash
# Developer tool: every check (or those named) on the tree as it is.
cd /verif || exit 1
for p in ${*:-$(seq -f "C%02g" 1 34)}; do
    s=$(date +%s); timeout "${LIMIT:-900}" python3 check.py "$p" "${TIER:-quick}" > "/tmp/all_$p.out" 2>&1; r=$?
    echo "$p rc=$r $(( $(date +%s) - s ))s $(tail -1 /tmp/all_$p.out | cut -c1-150)"
done
