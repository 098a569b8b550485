#!/bin/bash
# run entries unsharded, one line each: ent.sh [-d DEADLINE] ENTRY...
dl=120; [ "$1" = -d ] && { dl=$2; shift 2; }
for e in "$@"; do timeout $((dl+120)) /verif/.build/symx/release/symx /verif/.build/sym/release/deps/vh_sym.ll --entry $e --deadline $dl --out /tmp/sf.$e.json $SYMX_OPTS >/tmp/sf.$e.err 2>&1; r=$?; python3 - $e $r <<'P'
import sys,json
try:
  d=json.load(open('/tmp/sf.%s.json'%sys.argv[1]))
  print(sys.argv[1],sys.argv[2],d['paths'],'left',d['left'],'unk',d['unknown'],'wall',d['wall_s'],'mq',d['max_query_s'],d['reach'],[ (v['kind'],v['msg'][:80],v['stack'][-3:],v['models'][:1]) for v in d['violations'][:2]], d.get('errors') and str(d['errors'])[:300])
except Exception as x: print(sys.argv[1],sys.argv[2],'noout',x,open('/tmp/sf.%s.err'%sys.argv[1]).read()[:300])
P
done
