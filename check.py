#!/usr/bin/env python3
"""Decide one property: check.py PROPERTY [--tier quick|thorough]

Builds the symbolic executor, compiles the harness together with /repo's current source to LLVM IR,
executes the property's harness entries symbolically (an SMT solver decides every assertion), replays
counterexamples on a native build of /repo, and writes evidence/PROPERTY.json.
Exit 0: held on everything explored. Exit 1: VIOLATION (reproduced natively). Exit 2: no answer."""
import sys, os, json, time, subprocess, shutil, fcntl, tempfile, hashlib, re, threading, signal, glob, select
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
from plan import PLAN, KNOWN_FILE
B = os.path.join(ROOT, ".build")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_TARGET_DIR", "RUSTC_WRAPPER"): ENV.pop(k, None)
HOOK = "--cfg=tiny_spice_verif"

def die(msg):
    print("ERROR " + msg, flush=True)
    sys.exit(2)

def run(cmd, cwd, env, what, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode != 0:
        die("%s failed:\n%s" % (what, p.stdout[-4000:]))

def build():
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        def symx(): run(["cargo", "build", "--release", "--offline"], os.path.join(ROOT, "symx"), dict(ENV, CARGO_TARGET_DIR=os.path.join(B, "symx")), "building symx")
        def sym(): run(["cargo", "rustc", "--release", "--offline", "--", "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"],
                       os.path.join(ROOT, "harness/sym"), dict(ENV, RUSTFLAGS=HOOK, CARGO_TARGET_DIR=os.path.join(B, "sym")), "compiling the harness to IR")
        def native(): run(["cargo", "build", "--offline"], os.path.join(ROOT, "harness/native"), dict(ENV, RUSTFLAGS=HOOK, CARGO_TARGET_DIR=os.path.join(B, "native")), "building the native replay")
        # cargo trusts time stamps; a checkout can change a file and keep an old one
        for t in ("sym", "native"):
            stamp = os.path.join(B, t + ".hash")
            h = hashlib.sha256()
            for d in ("/repo/src", os.path.join(ROOT, "harness")):
                for dp, dn, fs in sorted(os.walk(d)):
                    dn[:] = sorted(x for x in dn if x != "target")
                    for f in sorted(fs):
                        p = os.path.join(dp, f)
                        h.update(p.encode()); h.update(open(p, "rb").read())
            old = open(stamp).read() if os.path.exists(stamp) else ""
            if old != h.hexdigest():
                for prof in ("release", "debug"):
                    for sub in (".fingerprint", "deps"):
                        dd = os.path.join(B, t, prof, sub)
                        if os.path.isdir(dd):
                            for f in os.listdir(dd):
                                if "tiny_spice" in f or "vh_" in f:
                                    q = os.path.join(dd, f)
                                    shutil.rmtree(q) if os.path.isdir(q) else os.remove(q)
            build.stamps[t] = (stamp, h.hexdigest())
        with ThreadPoolExecutor(3) as ex:
            fs = [ex.submit(f) for f in (symx, sym, native)]
            for f in fs: f.result()
        for s, h in build.stamps.values(): open(s, "w").write(h)
        d = os.path.join(B, "sym/release/deps")
        lls = [f for f in os.listdir(d) if f.startswith("vh_sym") and f.endswith(".ll")]
        if len(lls) != 1: die("expected one IR file, found %s" % lls)
        # private copies, so that a concurrent rebuild cannot change them under this run
        w = tempfile.mkdtemp(prefix="run-", dir=B)
        shutil.copy(os.path.join(d, lls[0]), os.path.join(w, "h.ll"))
        shutil.copy(os.path.join(B, "symx/release/symx"), os.path.join(w, "symx"))
        shutil.copy(os.path.join(B, "native/debug/vh_native"), os.path.join(w, "native"))
        return w
build.stamps = {}

def symx_run(w, prop, known, i, task, shard, tier, budget, cap):
    out = os.path.join(w, "out-%d-%d.json" % (i, shard))
    o = dict(task.get("opts", {}))
    if tier == "thorough": o.update(task.get("thorough", {}))
    n = task.get("shards", 1)
    cmd = [os.path.join(w, "symx"), os.path.join(w, "h.ll"), "--entry", task["entry"], "--mode", task.get("mode", "real"), "--out", out,
           "--shard", "%d/%d" % (shard, n), "--deadline", str(int(max(5, min(cap, budget())))), "--max-viol", "3", "--tokens", "%d,%d" % TOK]
    for k, v in o.items(): cmd += ["--" + k, str(v)]
    d = None
    # a core is taken here and given back by symx, which also starts more processes while cores are free
    while not STOP.is_set():
        if select.select([TOK[0]], [], [], 0.1)[0]:
            try:
                if os.read(TOK[0], 1): break
            except BlockingIOError: pass
    if not STOP.is_set():
        err = os.path.join(w, "err-%d-%d" % (i, shard))
        with open(err, "w") as ef: p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef, env=ENV, start_new_session=True, pass_fds=TOK)
        while p.poll() is None and not STOP.wait(0.05): pass
        if p.poll() is None:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
        else:
            try: d = merged(out)
            except Exception:
                os.write(TOK[1], b"x")
                d = dict(errors=["symx died: " + open(err).read()[-600:]], violations=[], fatal=True)
    if d is None: d = dict(errors=[], violations=[], cut=True) # another entry already has a violation that the native build reproduces
    d["task"] = task
    d["shard"] = shard
    # replay: a few of each message
    n = {}
    for k, v in enumerate(d["violations"]):
        v["task"] = task
        m = v["msg"].split(" <- ")[0]
        n[m] = n.get(m, 0) + 1
        if n[m] > 4 or STOP.is_set(): continue
        v["rep"] = replay(w, prop, task, v, "%d_%d" % (shard, k))
        if v["rep"][0] and not known_of(known, v): STOP.set()
    return d
def merged(out):
    """the results of the processes that shared one run"""
    ds = [json.load(open(f)) for f in [out] + sorted(glob.glob(out + ".*"))]
    d = ds[0]
    for o in ds[1:]:
        for k, v in o.items():
            if k in ("reach", "notes"):
                for m, n in v.items(): d[k][m] = d[k].get(m, 0) + n
            elif k == "functions": d[k] = sorted(set(d[k]) | set(v))
            elif k in ("max_query_s", "ir_instructions", "wall_s"): d[k] = max(d[k], v)
            elif k == "samples": d[k] = (d[k] + v)[:6]
            elif k == "stopped": d[k] = d[k] or v
            elif isinstance(v, bool) or isinstance(v, str): pass
            else: d[k] = d[k] + v
    d["processes"] = len(ds)
    return d
def known_of(known, v): return [k for k in known if k["entry"] == v["task"]["entry"] and re.search(k["match"], v["msg"] + " | " + v["tag"])]
STOP = threading.Event()
TOK = os.pipe()
os.set_blocking(TOK[0], False)

def nearby(models):
    """the models with their reals moved a little: a deviation can vanish at round values (text read as f32, say); the native run decides"""
    out = []
    for s in (0.00123456789, -0.0345678912):
        for m in models[:3]:
            n = []
            for i, (k, t, x) in enumerate(m):
                if t == "f64" and not x.startswith("bits"):
                    d = float(x)
                    x = "%.17e" % (d * (1 + s * (1 + i % 7)) if d else s * (1 + i % 7))
                n.append((k, t, x))
            if n != [tuple(y) for y in m]: out.append(n)
    return out

def replay(w, prop, task, v, k):
    """native replay of one violation: (reproduced, replay path, text)"""
    rd = os.path.join(ROOT, "replays", prop)
    os.makedirs(rd, exist_ok=True)
    best = None
    for j, m in enumerate(v["models"] + nearby(v["models"])):
        f = os.path.join(rd, "%s-%s-%d.model" % (task["entry"], k, j))
        with open(f, "w") as o: o.write("".join("%s\t%s\n" % (n, x) for n, _, x in m))
        cwd = tempfile.mkdtemp(prefix="replay-", dir=w)
        try:
            p = subprocess.run([os.path.join(w, "native"), f, task["entry"]], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=30)
            rc, txt = p.returncode, p.stdout.decode("utf8", "replace")
        except subprocess.TimeoutExpired as e:
            rc, txt = ("timeout", (e.stdout or b"").decode("utf8", "replace"))
        shutil.rmtree(cwd, ignore_errors=True)
        ok = rc in (42, 101, 134, -6, -11) or (rc == "timeout" and j < len(v["models"]))
        lines = txt.splitlines()
        keep = lines if len(lines) < 200 else lines[:100] + ["..."] + lines[-60:]
        with open(f, "a") as o:
            o.write("\n# harness %s, message: %s, choices: %s\n# replay: %s FILE %s  -> %s\n" % (task["entry"], v["msg"], v["tag"], "vh_native", task["entry"], rc) + "".join("# | %s\n" % l for l in keep))
        if ok: return True, f, [l for l in lines if "VIOLATED" in l or "panicked" in l][:2] or [str(rc)]
        best = best or (f, rc)
    return False, best[0] if best else "", [str(best[1]) if best else "no model"]

def main():
    a = sys.argv[1:]
    prop = a[0]
    if prop == "--setup":
        shutil.rmtree(build(), ignore_errors=True)
        return
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    spec = PLAN[prop]
    if "--only" in a: spec = dict(spec, tasks=[t for t in spec["tasks"] if re.search(a[a.index("--only") + 1], t["entry"])])
    limit = 700 if tier == "quick" else 4 * 3600
    cap = 300 if tier == "quick" else 4 * 3600
    w = build()
    t_build = time.time() - t0
    try:
        budget = lambda: limit - (time.time() - t0)
        jobs = [(i, t, s) for i, t in enumerate(spec["tasks"]) if tier == "thorough" or t.get("tier", "quick") == "quick" for s in range(t.get("shards", 1))]
        jobs.sort(key=lambda j: -j[1].get("weight", 1))
        known = [k for k in json.load(open(KNOWN_FILE))["findings"] if k["property"] == prop]
        os.write(TOK[1], b"x" * (os.cpu_count() or 8))
        with ThreadPoolExecutor(64) as ex:
            res = list(ex.map(lambda j: symx_run(w, prop, known, j[0], j[1], j[2], tier, budget, cap), jobs))
        errors, viols, findings, spurious, undecided = [], [], [], [], []
        by_entry = {}
        for d in res:
            e = d["task"]["entry"]
            for x in d["errors"]: errors.append("%s[%d]: %s" % (e, d["shard"], x))
            for k, n in d.get("notes", {}).items():
                if k.startswith("undecided: "): undecided.append("%s: no answer from the solver: %s (%d)" % (e, k[11:], n))
            if d.get("stopped") and any("rep" in v for v in d["violations"]): pass # said below
            elif d.get("stopped"): errors.append("%s[%d]: stopped before every path was explored (%s left)" % (e, d["shard"], d.get("pending")))
            by_entry.setdefault(e, []).append(d)
        pick = [v for d in res for v in d["violations"] if "rep" in v]
        for v in pick:
            (ok, path, txt), kn = v["rep"], known_of(known, v)
            if kn and ok: findings.append((kn[0], v, path))
            elif ok: viols.append((v, path, txt))
            else: spurious.append((v, path, txt)); undecided.append("%s: %s [%s]: satisfiable with exp, ln, sin or rounding left open, but no inputs were found that violate it natively (%s)" % (v["task"]["entry"], v["msg"][:200], v["tag"], os.path.relpath(path, ROOT) if path else txt))
        # vacuity: every entry must reach its declared marks, with at least one assertion decided
        for e, ds in by_entry.items():
            t = ds[0]["task"]
            reach = {}
            for d in ds:
                for k, n in d.get("reach", {}).items(): reach[k] = reach.get(k, 0) + n
            # (a run cut short by the time limit is reported as incomplete below)
            if not any(d["violations"] or d.get("cut") or d.get("left") for d in ds):
                for m in t.get("reach", ["end"]):
                    if m.startswith("?"):
                        if not reach.get(m[1:]): undecided.append("%s: mark '%s' never reached: what hangs on it was not checked" % (e, m[1:]))
                    elif not reach.get(m): errors.append("%s: mark '%s' never reached (the check would be vacuous)" % (e, m))
                if sum(d.get("asserts_solver", 0) + d.get("asserts_simplified", 0) for d in ds) == 0 and not t.get("no_assert"): errors.append("%s: no assertion was reached" % e)
        incomplete = {e: sum(d.get('left', 0) for d in ds) for e, ds in by_entry.items() if sum(d.get('left', 0) for d in ds)}
        S = lambda k: sum(d.get(k, 0) for d in res)
        fns = sorted({f for d in res for f in d.get("functions", [])})
        repo_fns = [f for f in fns if "tiny_spice" in f and "vh_" not in f.split(" ")[0]]
        samples = [dict(entry=d["task"]["entry"], path=s) for d in res for s in d.get("samples", [])[:2]][:24]
        obligations = S("asserts_solver") + S("asserts_simplified")
        ev = dict(property=prop, tier=tier, seed=seed, level=spec.get("level", "model_checking"), wall_s=round(time.time() - t0, 2), coverage=dict(
            states=S("paths") + S("panic_paths"), transitions=S("steps"), traces_validated_against_impl=len(pick), samples=samples,
            explanation="symbolic execution of the compiled code (LLVM IR of /repo's current source): states = complete symbolic paths, each standing for all values satisfying its path condition; transitions = IR instructions executed symbolically; traces_validated_against_impl = counterexamples replayed on the native build",
            entries=[dict(entry=e, mode=ds[0]["task"].get("mode", "real"), bounds=ds[0]["task"].get("bounds", ""), paths=sum(d.get("paths", 0) for d in ds), shards=len(ds),
                          reach={k: sum(d.get("reach", {}).get(k, 0) for d in ds) for d0 in ds for k in d0.get("reach", {})},
                          queries=sum(d.get("queries", 0) for d in ds), solver_s=round(sum(d.get("solver_s", 0) for d in ds), 2)) for e, ds in by_entry.items()],
            functions_encoded=repo_fns, functions_encoded_total=len(fns), ir_instructions_encoded=max([d.get("ir_instructions", 0) for d in res] or [0]),
            bounds=spec["bounds"], outside=spec.get("outside", ""), stubs=spec.get("stubs", "stdout/stderr printing does nothing; files live in an in-memory file system; allocation never fails"),
            arithmetic="real mode: doubles are the exact decimals they print as and arithmetic is exact (rounding is outside the claim); exp, ln, sin, sqrt are uninterpreted functions with sound axioms" if any(t.get("mode", "real") == "real" for t in spec["tasks"]) else "IEEE-754 doubles",
            queries_discharged=S("queries"), queries_sat=S("sat"), queries_unsat=S("unsat"), queries_unknown=S("unknown"), queries_from_cache=S("cached"), queries_second_solver=S("fallback"), queries_by_byte_propagation=S("propagated"),
            solver_s=round(S("solver_s"), 2), max_query_s=round(max([d.get("max_query_s", 0) for d in res] or [0]), 2),
            assertions_decided_by_solver=S("asserts_solver"), assertions_decided_by_normal_form=S("asserts_simplified"), assertions=obligations,
            feasibility_forks=S("forks"), infeasible_or_assumed_away=S("dead"), states_left_when_time_was_up=incomplete, violations=len(viols), known_findings=len(findings), not_reproduced=len(spurious), errors=errors[:10], undecided=undecided[:20], build_s=round(t_build, 2)))
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
        seen = set()
        for k, v, path in findings:
            if k["id"] in seen: continue
            seen.add(k["id"])
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        for v, path, txt in viols:
            print("violation in %s: %s [%s] %s" % (v["task"]["entry"], v["msg"][:300], v["tag"], "; ".join(txt)[:300]))
        if viols:
            print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(viols[0][1], ROOT)))
        for u in undecided[:12]: print("undecided: " + u)
        for e in errors[:12]: print("error: " + e)
        for e, n in incomplete.items(): print("incomplete: %s: time is up with %d states unexplored; what was explored held" % (e, n))
        print("%s %s: %d entries, %d paths, %d assertions (%d by solver), %d queries, solver %.1fs, wall %.1fs (build %.1fs)" % (prop, tier, len(by_entry), S("paths"), obligations, S("asserts_solver"), S("queries"), S("solver_s"), time.time() - t0, t_build))
        if viols: sys.exit(1)
        if errors or (os.environ.get("VERIF_STRICT") and (undecided or incomplete)): sys.exit(2)
    finally:
        shutil.rmtree(w, ignore_errors=True)

main()
