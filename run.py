#!/usr/bin/env python3
"""Driver: builds the engine, the IR of the current /repo tree and the native replayer, runs the symbolic jobs of
one property, replays counterexamples, validates sampled paths and writes the evidence file.

  run.py check ID [--tier quick|thorough]     decide one property
  run.py replay FILE                          replay a recorded counterexample
  run.py setup                                build everything once
"""
import concurrent.futures as cf
import fcntl, hashlib, json, os, re, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, "build")
REPO = "/repo"
sys.path.insert(0, V)
WORKERS = os.cpu_count() or 8
TARGET = "x86_64-unknown-linux-gnu"

# name -> (small nodes, checks of sweep-bptree on). Without them the crate is compiled as for release: no debug
# assertions, wrapping arithmetic.
VARIANTS = {
    "small": (True, True),
    "big": (False, True),
    "small_r": (True, False),
    "big_r": (False, False),
}


def die(msg, code=2):
    print("ERROR " + msg, flush=True)
    sys.exit(code)


def sh(cmd, env=None, cwd=None, timeout=600):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, env=e, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")


def digest(*roots):
    h = hashlib.sha256()
    for r in roots:
        fs = [r] if os.path.isfile(r) else sorted(os.path.join(d, f) for d, _, ff in os.walk(r) for f in ff if "/target" not in d)
        for f in fs:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as x:
                h.update(x.read())
            h.update(b"\0")
    return h.hexdigest()[:16]


class Lock:
    def __init__(self, name):
        os.makedirs(B, exist_ok=True)
        self.f = open(os.path.join(B, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def src_key():
    return digest(REPO + "/src", REPO + "/Cargo.toml", V + "/harness/src", V + "/harness/Cargo.toml")


def build_engine():
    out = os.path.join(B, "engine-" + digest(V + "/engine/src", V + "/engine/Cargo.toml"))
    with Lock("engine"):
        if not os.path.exists(out):
            r = sh(["cargo", "build", "--offline", "--release"], cwd=V + "/engine", env={"CARGO_TARGET_DIR": B + "/tgt-engine", "RUSTUP_TOOLCHAIN": "stable", "RUSTFLAGS": ""})
            if r.returncode:
                die("engine does not build\n" + r.stdout[-3000:])
            os.replace(B + "/tgt-engine/release/symx", out)
    return out


def flags(variant):
    small, checked = VARIANTS[variant]
    rf = "--cfg verif_small_nodes" if small else ""
    cfg = []
    if not checked:
        cfg = ["--config", "profile.dev.package.sweep-bptree.debug-assertions=false", "--config", "profile.dev.package.sweep-bptree.overflow-checks=false"]
    return rf, cfg


def build_ir(variant, key, fns):
    d = os.path.join(B, "ir")
    os.makedirs(d, exist_ok=True)
    tag = hashlib.sha256(" ".join(sorted(fns)).encode()).hexdigest()[:8]
    out = os.path.join(d, "%s-%s-%s.ll" % (variant, key, tag))
    bc = os.path.join(d, "%s-%s.bc" % (variant, key))
    rf, cfg = flags(variant)
    tgt = B + "/tgt-ir-" + variant
    with Lock("ir-" + variant):
        if not os.path.exists(bc):
            for f in os.listdir(d):
                if f.startswith(variant + "-") and key not in f:
                    os.remove(os.path.join(d, f))
            deps = tgt + "/debug/deps"
            if os.path.isdir(deps):
                for f in os.listdir(deps):
                    if f.startswith("vharness-") or f.startswith("libvharness"):
                        os.remove(os.path.join(deps, f))
            r = sh(
                ["cargo", "rustc", "--offline", "--lib", "--crate-type", "staticlib"] + cfg,
                cwd=V + "/harness",
                env={"CARGO_TARGET_DIR": tgt, "RUSTUP_TOOLCHAIN": "stable", "RUSTFLAGS": ("-Csave-temps " + rf).strip()},
            )
            if r.returncode:
                die("harness does not build against the current tree (%s)\n%s" % (variant, r.stdout[-6000:]))
            c = [os.path.join(deps, f) for f in os.listdir(deps) if f.startswith("vharness-") and f.endswith(".lto.after-restriction.bc")]
            if not c:
                die("no bitcode produced")
            os.replace(max(c, key=os.path.getmtime), bc)
            for f in os.listdir(deps):
                if f.endswith(".bc") or ".rcgu." in f:
                    os.remove(os.path.join(deps, f))
        if not os.path.exists(out):
            root = sh(["rustc", "--print", "sysroot"], env={"RUSTUP_TOOLCHAIN": "stable"}).stdout.strip()
            L = root + "/lib/rustlib/" + TARGET + "/bin"
            api = "-internalize-public-api-list=" + ",".join(fns)
            # functions the engine gives a meaning of its own must stay calls
            nm = sh([L + "/llvm-nm", "--defined-only", bc]).stdout
            own = re.findall(r"\S*(?:___rustc|4core9panicking|3std9panicking|resume_unwind|handle_alloc_error|rust_panic|catch_unwind|hashmap_random)\S*", nm)
            fa = ["-force-attribute=%s:noinline" % f for f in own]
            # no pass here may use undefined behaviour to remove code: no simplifycfg, no instcombine
            r = sh([L + "/opt", "-passes=internalize,globaldce", api, bc, "-o", out + ".bc"])
            names = sh([L + "/llvm-nm", "--defined-only", out + ".bc"]).stdout
            with open(out + ".names", "w") as f:
                f.write("\n".join(x.split()[-1] for x in names.splitlines() if x.strip()))
            r = sh([L + "/opt", "-passes=forceattrs,always-inline,function(sroa,early-cse),cgscc(inline,function(sroa,early-cse)),globaldce", "-inline-threshold=0", api] + fa + [out + ".bc", "-o", out + ".bc2"])
            if r.returncode:
                die("opt failed\n" + r.stdout[-2000:])
            os.replace(out + ".bc2", out + ".bc")
            r = sh([L + "/llvm-dis", out + ".bc", "-o", out + ".tmp"])
            if r.returncode:
                die("llvm-dis failed\n" + r.stdout[-2000:])
            os.remove(out + ".bc")
            os.replace(out + ".tmp", out)
    return out


def build_native(variant, key, release=False):
    d = os.path.join(B, "native")
    os.makedirs(d, exist_ok=True)
    nm = variant + ("-rel" if release else "")
    out = os.path.join(d, "%s-%s" % (nm, key))
    rf, cfg = flags(variant)
    tgt = B + "/tgt-native-" + nm
    with Lock("native-" + nm):
        if not os.path.exists(out):
            for f in os.listdir(d):
                if re.match(re.escape(nm) + "-[0-9a-f]{16}$", f):
                    os.remove(os.path.join(d, f))
            # full LTO is only needed for the bitcode
            r = sh(
                ["cargo", "build", "--offline", "--features", "native", "--bin", "replay", "--config", "profile.dev.lto=false"] + (["--release"] if release else []) + ([] if release else cfg),
                cwd=V + "/harness",
                env={"CARGO_TARGET_DIR": tgt, "RUSTUP_TOOLCHAIN": "stable", "RUSTFLAGS": rf},
            )
            if r.returncode:
                die("replayer does not build (%s)\n%s" % (variant, r.stdout[-6000:]))
            os.replace(tgt + ("/release" if release else "/debug") + "/replay", out)
    return out


def csv(v):
    return ",".join(str(x) for x in v) or "-"


def run_native(exe, harness, params, inputs, timeout=30, env=None):
    """-> (status, output); status in ok, fail, invalid, crash, timeout"""
    try:
        r = sh([exe, harness, csv(params), csv(inputs)], timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        return "timeout", ""
    if r.returncode == 99:
        return "invalid", r.stdout
    if r.returncode == 101 and "REPLAY-FAIL" in r.stdout:
        return "fail", r.stdout
    if r.returncode != 0:
        return "crash", "exit %s\n" % r.returncode + r.stdout
    return "ok", r.stdout


def run_miri(variant, harness, params, inputs, seeds=None, timeout=200):
    rf, cfg = flags(variant)
    mf = "-Zmiri-disable-stacked-borrows -Zmiri-disable-isolation"
    if seeds:
        mf += " -Zmiri-many-seeds=0..%d" % seeds
    with Lock("miri"):
        try:
            r = sh(
                ["cargo", "+nightly", "miri", "run", "--offline", "--features", "native", "--bin", "replay", "--config", "profile.dev.lto=false"] + cfg + ["--", harness, csv(params), csv(inputs)],
                cwd=V + "/harness",
                env={"CARGO_TARGET_DIR": B + "/tgt-miri", "MIRIFLAGS": mf, "RUSTFLAGS": rf, "RUSTUP_TOOLCHAIN": "nightly"},
                timeout=timeout,
            )
        except subprocess.TimeoutExpired:
            return "timeout", ""
    if "START" not in r.stdout:
        return "invalid", r.stdout
    if r.returncode == 99:
        return "invalid", r.stdout
    if r.returncode != 0:
        return ("fail" if "REPLAY-FAIL" in r.stdout else "crash"), r.stdout
    return "ok", r.stdout


T0 = time.time()


def try_replay(rec, key, log):
    """replay one counterexample against the real code; -> description or None"""
    v, h, p, i = rec["variant"], rec["harness"], rec["params"], rec["inputs"]
    hang = rec["kind"] in ("steps", "recursion")
    steps = [("native", lambda: run_native(build_native(v, key), h, p, i))]
    if rec["kind"] in ("memory", "ub", "uninit", "race"):
        seeds = 16 if rec["kind"] == "race" else None
        steps.append(("miri", lambda: run_miri(v, h, p, i, seeds)))
    if rec.get("sched"):
        # racing threads on the real processor, then under an adversarial scheduler
        steps.append(("native-stress", lambda: run_native(build_native(v, key, True), h, p, i, env={"VERIF_STRESS": "3"})))
        steps.append(("miri-seeds", lambda: run_miri(v, h, p, i, 24)))
    steps.append(("native-release", lambda: run_native(build_native(v, key, True), h, p, i)))
    for name, f in steps:
        if "miri" in name and time.time() - T0 > 560:
            log.append(name + ": not run for lack of time")
            continue
        st, out = f()
        log.append("%s: %s" % (name, st))
        if st in ("fail", "crash"):
            m = re.search(r"REPLAY-FAIL.*", out) or re.search(r"error: .*", out) or re.search(r"exit .*", out)
            return "%s: %s" % (name, m.group(0) if m else st)
        if st == "timeout" and hang:
            return "%s: does not terminate" % name
    return None


def demangle(names):
    try:
        r = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
        return r.stdout.split("\n")[: len(names)]
    except OSError:
        return names


def short(f):
    """drop crate hashes and generic arguments from a demangled name"""
    f = re.sub(r"\[[0-9a-f]+\]", "", f)
    while True:
        g = re.sub(r"(?<=\w)(::)?<[^<>]*>", "", f)
        if g == f:
            return f
        f = g


def known(prop):
    """(harness, kind, msg prefix, text) of the findings recorded for a property"""
    out = []
    f = V + "/known_findings.txt"
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) harness=(\S+) kind=(\S+) at=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append(m.groups()[1:])
    return out


def check(prop, tier):
    import props

    t0 = time.time()
    P = props.PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    jobs = P["jobs"](tier)
    limit = P.get("limit", {}).get(tier, {"quick": 400, "thorough": 780}[tier])
    if os.environ.get("VERIF_LIMIT"):
        limit = int(os.environ["VERIF_LIMIT"])
    key = src_key()
    by = {}
    for j in jobs:
        by.setdefault(j[0], []).append(j)
    fns = sorted({j[1] for j in jobs})
    with cf.ThreadPoolExecutor(8) as ex:
        fe = ex.submit(build_engine)
        fi = {v: ex.submit(build_ir, v, key, sorted({j[1] for j in by[v]})) for v in by}
        fnat = {v: ex.submit(build_native, v, key) for v in by}
        eng = fe.result()
        irs = {v: f.result() for v, f in fi.items()}
        nat = {v: f.result() for v, f in fnat.items()}
    tb = time.time() - t0
    tmp = os.path.join(B, "run-%s-%d" % (prop, os.getpid()))
    os.makedirs(tmp, exist_ok=True)
    rep = os.path.join(V, "evidence", "replay")
    os.makedirs(rep, exist_ok=True)
    for f in os.listdir(rep):
        if f.startswith(prop + "-"):
            os.remove(os.path.join(rep, f))
    results, viols, errors = [], [], []
    total = sum(max(1, len(by[v])) for v in by)
    deadline = t0 + limit
    order = sorted(by, key=lambda v: len(by[v]))
    for n, v in enumerate(order):
        js = by[v]
        left = deadline - time.time()
        rest = sum(len(by[x]) for x in order[n:])
        # the quick tier is meant to finish well before its limit
        secs = max(5, left * max(len(js) / rest, 0.15)) if n + 1 < len(order) and tier != "quick" else max(5, left)
        jf = os.path.join(tmp, v + ".jobs")
        with open(jf, "w") as f:
            for j in js:
                f.write(" ".join([j[1]] + [str(x) for x in j[2]]) + "\n")
        o = dict(P.get("opts", {}))
        cl = os.path.join(tmp, "claim-" + v)
        os.makedirs(cl, exist_ok=True)
        procs = []
        for w in range(min(WORKERS, len(js))):
            of = os.path.join(tmp, "%s.%d.out" % (v, w))
            cmd = [eng, irs[v], jf, of, "--threads", "1", "--claim", cl, "--deadline", str(int(secs)), "--job-secs", str(o.get("job_secs", 10000)), "--steps", str(o.get("steps", 50000000)), "--depth", str(o.get("depth", 400)), "--samples", "3"]
            procs.append((of, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        lines = []
        for of, p in procs:
            try:
                so, _ = p.communicate(timeout=max(1, secs + 120 - 0))
            except subprocess.TimeoutExpired:
                p.kill()
                so, _ = p.communicate()
            if p.returncode or not os.path.exists(of):
                errors.append("engine failed (%s, exit %s) %s" % (v, p.returncode, so[-1500:]))
                continue
            lines += open(of).read().splitlines()
            os.remove(of)
        for f in os.listdir(cl):
            os.remove(os.path.join(cl, f))
        os.rmdir(cl)
        for l in lines:
            d = json.loads(l)
            d["variant"] = v
            results.append(d)
            if d.get("error"):
                errors.append("%s %s %s: %s" % (v, d["harness"], d["params"], d["error"]))
            for x in d.get("violations", []):
                viols.append(dict(x, variant=v, harness=d["harness"], params=d["params"]))
    if os.environ.get("VERIF_PROFILE"):
        for d in sorted((d for d in results if "ms" in d), key=lambda d: -d["ms"])[:25]:
            print("PROFILE", d["ms"], d["paths"], d["queries"], d["solver_ms"], d["variant"], d["harness"], d["params"])
        ag = {}
        for d in results:
            if "ms" in d:
                a = ag.setdefault((d["variant"], d["harness"]), [0, 0, 0])
                a[0] += 1; a[1] += d["ms"]; a[2] += d["paths"]
        for k, a in sorted(ag.items()):
            print("PROFILE", k, a)
    # --- counterexamples
    status = 0
    findings = known(prop)
    confirmed, unconfirmed, hits = [], [], {}
    seen = set()
    # different ones first, those which depend on a schedule after the others
    num = {}
    for x in viols:
        g = (x["harness"], x["kind"], x["msg"])
        num[g] = x["num"] = num.get(g, -1) + 1
    viols.sort(key=lambda x: (x["num"], bool(x.get("sched"))))
    for x in viols:
        x["inputs_w"] = x["inputs"]
        x["inputs"] = [i[1] for i in x["inputs_w"]]
        x["stack"] = demangle(x["stack"])
        at = next((s for s in x["stack"] if "sweep_bptree" in s), x["stack"][0] if x["stack"] else "?")
        x["at"] = re.sub(r"\s+", "", at)
        k = next((f for f in findings if f[0] == x["harness"] and f[1] == x["kind"] and (f[2] in x["at"] or any(f[2] in re.sub(r"\s+", "", s) for s in x["stack"]))), None)
        if k:
            hits.setdefault(k, x)
            continue
        sig = (x["harness"], x["kind"], x["msg"], x["at"])
        if sig in seen or len(confirmed) >= 3 or len(unconfirmed) >= (8 if not confirmed else 2):
            continue
        log = []
        how = try_replay(x, key, log)
        x["replay_log"] = log
        if how:
            seen.add(sig)
            x["reproduced"] = how
            confirmed.append(x)
        else:
            unconfirmed.append(x)
    for n, x in enumerate(confirmed):
        f = os.path.join(rep, "%s-%d.json" % (prop, n))
        rec = {k: x[k] for k in ("variant", "harness", "params", "inputs", "inputs_w", "sched", "kind", "msg", "stack", "reproduced")}
        rec["property"] = prop
        rec["command"] = "python3 %s replay %s" % (os.path.join(V, "run.py"), f)
        json.dump(rec, open(f, "w"), indent=1)
        print("%s: %s %s in %s params=%s inputs=%s; replayed: %s" % (prop, x["kind"], x["msg"], x["harness"], x["params"], x["inputs"], x["reproduced"]))
        print("VIOLATION property=%s replay=%s" % (prop, f), flush=True)
        status = 1
    for k in hits:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[3]))
    # --- sampled paths against the real code
    todo = []
    for d in results:
        for s in d.get("samples", []):
            todo.append((d, s))
    maxs = 400 if tier == "quick" else 2000
    step = max(1, len(todo) // maxs)
    todo = todo[::step]

    def val(ds):
        d, s = ds
        st, out = run_native(nat[d["variant"]], d["harness"], d["params"], [i[1] for i in s["inputs"]])
        m = re.search(r"^OBS (.*)$", out, re.M)
        got = [int(x) for x in m.group(1).split(",") if x] if m else None
        return st == "ok" and got == s["obs"], st, got, out

    validated, mism = 0, []
    if not confirmed:
        with cf.ThreadPoolExecutor(8) as ex:
            for (d, s), (ok, st, got, out) in zip(todo, ex.map(val, todo)):
                if ok:
                    validated += 1
                else:
                    mism.append("%s %s %s inputs %s: %s predicted %s got %s %s" % (d["variant"], d["harness"], d["params"], s["inputs"], st, s["obs"][:20], (got or [])[:20], out[-300:] if st != "ok" else ""))
    # --- evidence
    ran = [d for d in results if "paths" in d]
    tot = lambda k: sum(d.get(k, 0) for d in ran)
    funcs = sorted({f for d in ran for f in d["funcs"]})
    dem = sorted({re.sub(r"::h[0-9a-f]{16}$", "", f) for f in demangle(funcs)})
    enc = sorted({f for p in irs.values() for f in demangle(open(p + ".names").read().split())})
    mine = sorted({short(f) for f in enc if re.match(r"<?sweep_bptree", f)})
    incomplete = {}
    for d in ran:
        if d.get("left"):
            incomplete["states left at the time limit"] = incomplete.get("states left at the time limit", 0) + d["left"]
        for k, n in d["incomplete"].items():
            incomplete[k] = incomplete.get(k, 0) + n
    skipped = sum(1 for d in results if d.get("skipped"))
    covers, chks = set(), {}
    for d in ran:
        covers |= {(d["harness"], c) for c in d["covers"]}
        for c, n in d["checks"].items():
            chks[d["harness"] + ":" + c] = chks.get(d["harness"] + ":" + c, 0) + n
    samples = []
    for d in ran[:: max(1, len(ran) // 6)][:8]:
        for s in d["samples"][:1]:
            samples.append({"variant": d["variant"], "harness": d["harness"], "params": d["params"], "inputs": [i[1] for i in s["inputs"]], "observed": s["obs"][:24]})
    cov = {
        "states": tot("paths"),
        "transitions": tot("forks"),
        "traces_validated_against_impl": validated,
        "samples": samples,
        "exhaustive": not incomplete and not skipped and not errors and not viols,
        "bounds": P["bounds"],
        "jobs": len(ran),
        "jobs_skipped_for_time": skipped,
        "paths_infeasible": tot("infeasible"),
        "paths_ending_in_an_allowed_panic": tot("panic_paths"),
        "instructions": tot("instrs"),
        "assertions_decided_by_solver": tot("checks_solver"),
        "assertions_decided_by_constant_folding": tot("checks_concrete"),
        "branches_decided_by_cached_model": tot("decided_model"),
        "branches_decided_by_interval_reasoning": tot("decided_interval"),
        "branch_decisions_and_paths_repeated_by_solver": tot("confirmed"),
        "solver_queries": tot("queries"),
        "solver_sat": tot("sat"),
        "solver_unsat": tot("unsat"),
        "solver_queries_as_integer_order_constraints": tot("int_queries"),
        "solver_refutations_repeated_over_bitvectors": tot("cross"),
        "solver_time_s": round(tot("solver_ms") / 1000.0, 2),
        "solver": "z3 4.8.12 (libz3)",
        "max_symbolic_inputs": max([d["max_inputs"] for d in ran] or [0]),
        "incomplete": incomplete,
        "assertion_sites": len(chks),
        "cover_points": len(covers),
        "functions_encoded": mine,
        "functions_encoded_total": len(enc),
        "functions_executed_after_inlining": len(dem),
        "build_s": round(tb, 1),
        "sampled_path_mismatches": len(mism),
    }
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": cov,
        "assumptions": P.get("assumptions", []) + props.COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(confirmed),
    }
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    for f in os.listdir(tmp):
        os.remove(os.path.join(tmp, f))
    os.rmdir(tmp)
    print(
        "%s %s: %d jobs (%d not run for lack of time), %d paths, %d solver queries (%.1f s), %d sampled paths validated, incomplete %s, %.1f s"
        % (prop, tier, len(ran), skipped, cov["states"], cov["solver_queries"], cov["solver_time_s"], validated, incomplete or "none", time.time() - t0)
    )
    if status == 0:
        for x in unconfirmed:
            print("UNCONFIRMED %s %s %s in %s %s params=%s inputs=%s sched=%s at %s %s" % (prop, x["kind"], x["msg"], x["variant"], x["harness"], x["params"], x["inputs"], x.get("sched"), x["at"], x["replay_log"]))
            status = 2
        for e in errors[:5]:
            print("ENGINE-ERROR " + e)
            status = 2
        for m in mism[:5]:
            print("MISMATCH " + m)
            status = 2
    sys.exit(status)


def main():
    a = sys.argv
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if a[1] == "check":
        check(a[2], tier)
    elif a[1] == "job":
        # one or more jobs for development: VARIANT HARNESS P,P,.. [HARNESS P,P,..]
        v, key = a[2], src_key()
        ir = build_ir(v, key, sorted(set(a[3::2])))
        jf, of = "/tmp/vf-job-%d" % os.getpid(), "/tmp/vf-out-%d" % os.getpid()
        js = list(zip(a[3::2], a[4::2]))
        with open(jf, "w") as f:
            for h, p in js:
                f.write(h + " " + p.replace(",", " ") + "\n")
        r = sh([build_engine(), ir, jf, of, "--threads", os.environ.get("SYMX_THREADS", "8"), "--deadline", os.environ.get("VERIF_LIMIT", "60"), "--job-secs", "10000", "--steps", "50000000", "--depth", "400", "--samples", "3"], timeout=4000)
        sys.stderr.write(r.stdout)
        for l in open(of):
            d = json.loads(l)
            print(d["harness"], d["params"], {k: d.get(k) for k in ("paths", "queries", "solver_ms", "ms", "instrs", "incomplete", "error", "skipped", "panic_paths") if d.get(k)})
            for x in d.get("violations", [])[:3]:
                print("   ", x["kind"], x["msg"], [i[1] for i in x["inputs"]], demangle(x["stack"])[:6])
        os.remove(jf)
        os.remove(of)
    elif a[1] == "setup":
        build_engine()
        key = src_key()
        for v in ("small", "big"):
            build_native(v, key)
        print("ready")
    elif a[1] == "replay":
        rec = json.load(open(a[2]))
        log = []
        how = try_replay(rec, src_key(), log)
        print("\n".join(log))
        print("REPRODUCED " + how if how else "not reproduced")
        sys.exit(1 if how else 0)
    else:
        die(__doc__)


if __name__ == "__main__":
    main()
