#!/bin/bash
# every quick check on /repo's current tree: exit code and time
cd /verif
for p in ${@:-$(seq -f 'C%02g' 1 23)}; do
  s=$SECONDS; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $p --tier ${TIER:-quick} >/tmp/allquick.$p.log 2>&1; echo "$p exit $? $((SECONDS-s)) s $(grep -E 'VIOLATION|KNOWN' /tmp/allquick.$p.log | head -2 | tr '\n' ' ')"
done
