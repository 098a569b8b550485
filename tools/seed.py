#!/usr/bin/env python3
"""Make planted bugs from tools/seeds.py: seed.py make [ID...] | check [ID...]

make : in a scratch copy, apply the replacement, build, run the stable tests, run the demo on the clean
       and on the changed tree, check that original lines change; write seeded/<id>/.
check: apply each seeded patch to /repo, run its property's check, undo; append to seeded-results.json.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
V = "/verif"; R = "/repo"; S = "/tmp/seedwork"
sys.path.insert(0, V + "/tools")
PRELUDE = open(V + "/tools/demo_prelude.rs").read()
DEMO_SH = '''#!/bin/bash
# builds the library and the demonstration in a scratch directory, runs it there; nonzero: property broken
H=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
R=$PWD
rustc --crate-type rlib --crate-name tiny_spice --edition 2015 -A warnings -O "$R/src/lib.rs" -o "$T/libtiny_spice.rlib" 2>"$T/log" || { cat "$T/log"; exit 3; }
rustc --edition 2021 -A warnings -O --extern tiny_spice="$T/libtiny_spice.rlib" "$H/demo.rs" -o "$T/demo" 2>"$T/log" || { cat "$T/log"; exit 3; }
mkdir "$T/run"; cd "$T/run" && RUST_BACKTRACE=0 timeout 120 "$T/demo" >"$T/out" 2>&1
rc=$?; grep -a -v '^ \\|^$' "$T/out" | tail -n 4; exit $rc
'''
def sh(cmd, cwd=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors="replace")

def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    return b

def make(m):
    w = S + "/w"
    sh("git checkout -q -- .", w)
    for f, old, new in m["edits"]:
        p = os.path.join(w, f); t = open(p).read()
        n = t.count(old)
        if n != 1: return "edit of %s matches %d times: %r" % (f, n, old[:60])
        open(p, "w").write(t.replace(old, new))
    rc, patch = sh("git diff", w)
    # original lines only
    removed = []
    for f in sorted({e[0] for e in m["edits"]}):
        rc, bl = sh("git blame -s HEAD -- " + f, w)
        owner = {}
        for i, l in enumerate(bl.splitlines(), 1): owner[i] = l.startswith("^")
        rc, d = sh("git diff -U0 -- " + f, w)
        for h in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", d, re.M):
            a = int(h.group(1)); c = int(h.group(2) or 1)
            for k in range(a, a + c): removed.append((f, k, owner.get(k)))
    keep = bool(removed) and all(x[2] for x in removed)
    if not keep and not os.environ.get("DRAFT"): return "changes lines that are not original: %s" % [x[:2] for x in removed if not x[2]]
    d = tempfile.mkdtemp(prefix="seed")
    try:
        open(d + "/patch.diff", "w").write(patch)
        open(d + "/demo.rs", "w").write("// %s\n" % m["breaks"].replace("\n", " ") + PRELUDE + "\nfn main() {\n" + m["demo"].strip("\n") + "\n}\n")
        open(d + "/demo.sh", "w").write(DEMO_SH); os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=m["prop"], needs=m["needs"], what_it_breaks=m["breaks"]), open(d + "/meta.json", "w"), indent=1)
        rc, o = sh("cargo build --offline 2>&1", w)
        if rc: return "does not build: " + o[-600:]
        rc, o = sh(d + "/demo.sh", w)
        if rc == 0: return "demo passes with the change: " + o[-300:]
        if rc == 3 : return "demo does not compile: " + o[-1500:]
        dem = o
        rc, o = sh(d + "/demo.sh", S + "/clean")
        if rc: return "demo fails on the clean tree: " + o[-600:]
        rc, o = sh("SEEDDIR=%s /verif/tools/seedtest.sh" % w, w)
        if rc: return "tests: " + o[-400:]
        # a change of lines the base doesn't have does not count: only tried
        out = (V + "/seeded/" if keep else "/tmp/drafts/") + m["id"]
        shutil.rmtree(out, ignore_errors=True); shutil.copytree(d, out)
        return "OK   " + dem.strip().splitlines()[-1][:150] if dem.strip() else "OK"
    finally:
        shutil.rmtree(d, ignore_errors=True); sh("git checkout -q -- .", w)

def check(ids):
    rf = V + "/tools/seeded-results.json"
    res = json.load(open(rf)) if os.path.exists(rf) else {}
    for i in ids:
        dr = V + "/seeded/" + i
        if not os.path.exists(dr): dr = "/tmp/drafts/" + i
        m = json.load(open(dr + "/meta.json"))
        rc, o = sh("git apply " + dr + "/patch.diff", R)
        if rc: print(i, "does not apply", o); continue
        t = time.time()
        try: rc, o = sh("VERIF_SEED=1 VERIF_TIER=quick python3 check.py %s --tier quick" % m["property"], V, 1000)
        finally: sh("git checkout -- .", R)
        viol = [l for l in o.splitlines() if l.startswith("VIOLATION")]
        ok = rc == 1 and any("property=" + m["property"] in l for l in viol)
        if not dr.startswith("/tmp"): res[i] = dict(property=m["property"], caught=ok, rc=rc, secs=round(time.time() - t, 1))
        print("%-28s %s %-7s rc %d %.0fs %s" % (i, m["property"], "CAUGHT" if ok else "MISSED", rc, time.time() - t, (viol or [o[-200:]])[0][:150]), flush=True)
        json.dump(res, open(rf, "w"), indent=1, sort_keys=True)

if __name__ == "__main__":
    if sys.argv[1] == "make":
        from seeds import SEEDS
        shutil.rmtree(S, ignore_errors=True); os.makedirs(S)
        sh("cp -a /repo %s/w && git -C %s/w checkout -q -- . && cp -a /repo %s/clean" % (S, S, S))
        for m in SEEDS:
            if len(sys.argv) > 2 and m["id"] not in sys.argv[2:]: continue
            if len(sys.argv) == 2 and any(os.path.exists(x + m["id"]) for x in (V + "/seeded/", "/tmp/drafts/")): continue
            print("%-28s %s" % (m["id"], make(m)), flush=True)
        shutil.rmtree("/tmp/seedwork", ignore_errors=True)
    else:
        ids = sys.argv[2:] or sorted(os.listdir(V + "/seeded"))
        check(ids)
