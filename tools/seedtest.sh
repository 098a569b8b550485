#!/bin/bash
# run the tests of the copy in $SEEDDIR; exit 1 when a stable test does not pass
. /opt/vp/env.sh; cd "$SEEDDIR" || exit 2
rm -rf waves; L=$(mktemp)
timeout -k 10 600 cargo test --workspace --no-fail-fast --offline --locked -- --include-ignored --test-threads 8 >$L 2>&1
python3 /opt/vp/results.py $L.json "cargo:$L" >/dev/null
python3 - $L.json <<'P'
import json,sys
d=json.load(open(sys.argv[1]));b=json.load(open('/opt/vp/BASELINE.json'))
m=[x for x in b['stable'] if x not in d['passed']]
print("stable missing:",m); sys.exit(1 if m else 0)
P
rc=$?; rm -f $L $L.json; exit $rc
