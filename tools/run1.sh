#!/bin/bash
# run one harness entry and print a summary: run1.sh ENTRY [symx options]
e=$1; shift
/verif/.build/symx/release/symx /verif/.build/sym/release/deps/vh_sym.ll --entry $e --out /tmp/r1.$e.json "$@" 2>/tmp/r1.$e.err || { head -c 3000 /tmp/r1.$e.err; }
python3 - $e <<'P'
import sys,json
d=json.load(open('/tmp/r1.%s.json'%sys.argv[1]))
d['functions']=len(d['functions']); d['samples']=d['samples'][:2]
v=d.pop('violations')
print(json.dumps(d)[:3000])
for x in v[:4]: print(' VIOL',x['kind'],x['msg'],x['tag'],x['stack'][-4:], x['models'][:1])
P
