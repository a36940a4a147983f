#!/bin/bash
# run every check once on the current tree; one line each
cd "$(dirname "$0")/.." || exit 2
for f in contracts/c[0-9]*.py; do
  p=$(basename "$f" .py | tr c C)
  t0=$(date +%s); python3-vt check.py "$p" > /tmp/run_$p.log 2>&1; r=$?
  echo "$p rc=$r $(( $(date +%s) - t0 ))s $(tail -1 /tmp/run_$p.log) undecided=$(grep -c "^UNDEC" /tmp/run_$p.log)"
done
