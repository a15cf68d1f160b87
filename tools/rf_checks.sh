#!/bin/bash
# rf_checks.sh DIR [props] : run the checks against a rewritten copy; prints alarms and contracts without a proof
D=$1; shift
cd "$(dirname "$0")/.."
for p in ${@:-$(seq -f 'C%02g' 33)}; do
  VERIF_REPO=$D VERIF_EV=/tmp/rf/ev timeout 880 python3-vt check.py $p --tier quick > /tmp/rf/out.$p 2>&1; rc=$?
  echo "$p rc=$rc $(tail -1 /tmp/rf/out.$p | cut -c1-120)"; grep "VIOLATION\|^obligation\|note:" /tmp/rf/out.$p | grep -v "proved within" | cut -c1-250
done
