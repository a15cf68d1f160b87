#!/bin/bash
# run every check (or those named) on the working tree; prints the last line of each, and anything that is not quiet
cd "$(dirname "$0")/.."
tier=${TIER:-quick}
for p in ${@:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])" 2>/dev/null || seq -f 'C%02g' 30)}; do
  python3-vt check.py $p --tier $tier > /tmp/allc.$p.log 2>&1; rc=$?
  [ $rc != 0 ] && echo "!! $p exit $rc" && grep VIOLATION /tmp/allc.$p.log
  tail -1 /tmp/allc.$p.log | cut -c1-200
done
