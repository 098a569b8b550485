#!/bin/bash
# run every shard of entries and print one line per entry: sum.sh N DEADLINE ENTRY...
n=$1; dl=$2; shift 2
for e in "$@"; do for s in $(seq 0 $((n-1))); do echo $e $s; done; done | xargs -P 8 -L 1 bash -c 'cd /tmp; /verif/.build/symx/release/symx /verif/.build/sym/release/deps/vh_sym.ll --entry $0 --shard $1/'$n' --deadline '$dl' '"$SYMX_OPTS"' --out /tmp/sh.$0.$1.json >/dev/null 2>&1'
python3 - $n "$@" <<'P'
import json,sys
n=int(sys.argv[1])
for e in sys.argv[2:]:
    ds=[json.load(open("/tmp/sh.%s.%d.json"%(e,i))) for i in range(n)]
    r={}
    for d in ds:
        for k,v in d["reach"].items(): r[k]=r.get(k,0)+v
    vs=[v for d in ds for v in d["violations"]]
    es=sorted({x for d in ds for x in d["errors"]})
    print("%-20s paths %d wall max %.1f sum %.1f reach %s unk %d queries %d viol %d err %s"%(e,sum(d["paths"] for d in ds),max(d["wall_s"] for d in ds),sum(d["wall_s"] for d in ds),r,sum(d["unknown"] for d in ds),sum(d["queries"] for d in ds),len(vs),es[:2]))
    for v in vs[:2]: print("   VIOL",v["kind"],v["msg"][:200],v["tag"],v["stack"][-4:],str(v["models"][:1])[:500])
P
