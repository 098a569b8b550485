#!/bin/bash
# run every shard of entries: shards.sh N DEADLINE ENTRY...
n=$1; dl=$2; shift 2
for e in "$@"; do for s in $(seq 0 $((n-1))); do echo $e $s; done; done | xargs -P 8 -L 1 bash -c 'cd /tmp; /verif/.build/symx/release/symx /verif/.build/sym/release/deps/vh_sym.ll --entry $0 --shard $1/'$n' --deadline '$dl' --out /tmp/sh.$0.$1.json >/dev/null 2>&1; python3 -c "
import json,sys
d=json.load(open(\"/tmp/sh.$0.$1.json\"))
print(\"$0 $1 paths\",d[\"paths\"],\"dead\",d[\"dead\"],\"wall\",d[\"wall_s\"],d[\"errors\"][:3],d[\"reach\"],\"unk\",d[\"unknown\"],\"solver-asserts\",d[\"asserts_solver\"])
for v in d[\"violations\"][:2]: print(\"   VIOL\",v[\"kind\"],v[\"msg\"][:200],v[\"tag\"],v[\"stack\"][-4:],v[\"models\"][:1])
"'
