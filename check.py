#!/usr/bin/env python3
"""Decides one property:  check.py <property> [--tier quick|thorough] [--only entry] [--keep]

1. builds the symbolic executor (engine/) if its binary is missing;
2. compiles /repo's current working tree together with the harness to LLVM IR (and to
   a native binary, from the very same compilation);
3. runs every harness of the property in the executor (Z3 decides all branches and
   assertions over the symbolic inputs);
4. replays counterexamples and a sample of explored paths in the native binary;
5. writes evidence/<property>.json.
Exit 0: held on everything explored; 1: VIOLATION; 2: the check could not decide.
"""
import threading, argparse, concurrent.futures as cf, fcntl, hashlib, json, os, re, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import jobs as J

ENGINE = os.path.join(V, "engine/target/release/rsym")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))
ENV = dict(os.environ)
ENV.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
    ENV.pop(k, None)


def die(msg):
    print("CHECK-ERROR: " + msg, flush=True)
    sys.exit(2)


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "engine.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = run(["cargo", "build", "--release", "--offline", "-q"], cwd=os.path.join(V, "engine"), env=ENV)
        if r.returncode != 0 or not os.path.exists(ENGINE):
            die("engine build failed\n" + r.stdout[-4000:])


def build_harness(crate, feature):
    """LLVM IR of the harness and /repo's crates, and the native binary of the same build."""
    tgt = os.path.join(BUILD, crate + "-" + feature)
    os.makedirs(tgt, exist_ok=True)
    with open(os.path.join(tgt, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        env = dict(ENV, CARGO_TARGET_DIR=tgt, RUSTFLAGS="-C no-vectorize-loops -C no-vectorize-slp")
        r = run(["cargo", "rustc", "--offline", "-q", "--bin", crate, "--no-default-features", "--features", feature,
                 "--", "--emit=llvm-ir"], cwd=os.path.join(V, crate), env=env)
        if r.returncode != 0:
            die("harness build failed (feature %s)\n%s" % (feature, r.stdout[-6000:]))
    d = os.path.join(tgt, "debug/deps")
    lls = sorted((os.path.getmtime(os.path.join(d, f)), os.path.join(d, f)) for f in os.listdir(d) if re.match(crate + r"-[0-9a-f]+\.ll$", f))
    if not lls:
        die("no LLVM IR produced")
    return lls[-1][1], os.path.join(tgt, "debug", crate)


def build_release(crate, feature):
    tgt = os.path.join(BUILD, crate + "-" + feature)
    with open(os.path.join(tgt, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = run(["cargo", "build", "--release", "--offline", "-q", "--bin", crate, "--no-default-features", "--features", feature],
                cwd=os.path.join(V, crate), env=dict(ENV, CARGO_TARGET_DIR=tgt))
    return os.path.join(tgt, "release", crate) if r.returncode == 0 else None


def native(binary, entry, params, hexinput, timeout=20):
    cmd = [binary, entry]
    for k, v in params.items():
        cmd += ["-p", "%s=%d" % (k, v % 2**64)]
    cmd += ["-x", hexinput]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, preexec_fn=limit)
    except subprocess.TimeoutExpired as e:
        return "hang", (e.stdout or b"").decode(errors="replace"), ""
    out = r.stdout.decode(errors="replace")
    err = r.stderr.decode(errors="replace")
    if r.returncode == 0 and "\nDONE" in "\n" + out:
        return "ok", out, err
    if r.returncode == 77:
        return "assume", out, err
    if r.returncode == 78:
        return "assert", out, err
    return "crash", out, err


def limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


STOP = threading.Event()
SKIPPED = "not run to its end: a violation was found"


def engine_job(prop, j, ll, outdir, seed):
    name = j.entry + "".join("-%s%d" % kv for kv in sorted(j.params.items()))
    out = os.path.join(outdir, name[:180] + ".json")
    if os.path.exists(out):
        os.unlink(out)
    cmd = [ENGINE, "--ll", ll, "--entry", j.entry, "--out", out, "--timeout", str(j.timeout), "--query-timeout", str(j.qtimeout),
           "--seed", str(seed), "--max-violations", "8", "--traces", str(j.traces)]
    if j.max_steps:
        cmd += ["--max-steps", str(j.max_steps)]
    for k, v in j.params.items():
        cmd += ["-p", "%s=%d" % (k, v % 2**64)]
    t = time.time()
    if STOP.is_set():
        return j, None, SKIPPED
    with open(out + ".log", "w+", errors="replace") as log:
        p = subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, cwd=V)
        while True:
            try:
                p.wait(timeout=0.2)
                break
            except subprocess.TimeoutExpired:
                pass
            if STOP.is_set() or time.time() - t > j.timeout + 120:
                p.kill()
                p.wait()
                return j, None, SKIPPED if STOP.is_set() else "engine exceeded its time limit"
        log.seek(0)
        text = log.read()
    if p.returncode != 0 or not os.path.exists(out):
        return j, None, "engine failed (exit %d): %s" % (p.returncode, text[-1500:])
    os.unlink(out + ".log")
    with open(out) as f:
        d = json.load(f)
    d["job_s"] = time.time() - t
    return j, d, None


def known_findings(prop):
    r = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) entry=(\S+) match=/(.*)/ (.*)", line.strip())
            if m and m.group(1) == prop:
                r.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = J.CHECKS[prop]
    jobs = [j for j in spec["jobs"] if (tier == "thorough" or not j.thorough) and not (tier == "thorough" and j.quick_only) and (not a.only or re.search(a.only, j.entry))]
    build_engine()
    irs = {}
    groups = sorted({(j.crate, j.feature) for j in jobs})
    with cf.ThreadPoolExecutor(4) as ex:
        for g, r in zip(groups, ex.map(lambda g: build_harness(*g), groups)):
            irs[g] = r
    tb = time.time() - t0
    ev = os.path.join(V, "evidence")
    outdir = os.path.join(ev, "runs", prop)
    rdir = os.path.join(ev, "replays")
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(rdir, exist_ok=True)
    workers = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 4)
    jobs.sort(key=lambda j: -j.weight)
    results = []
    kfs = known_findings(prop)
    with cf.ThreadPoolExecutor(workers) as ex:
        fs = [ex.submit(engine_job, prop, j, irs[(j.crate, j.feature)][0], outdir, seed) for j in jobs]
        for f in cf.as_completed(fs):
            results.append(f.result())
            j, d, e = results[-1]
            # a confirmed violation that no known finding lists: the other runs need not end
            for v in (d["violations"] if d and not STOP.is_set() else []):
                desc = v["msg"] + " @ " + v["loc"]
                if not any(re.fullmatch(en, j.entry) and rx.search(desc) for en, rx, _ in kfs) and tier == "quick" and not a.v:
                    if native(irs[(j.crate, j.feature)][1], j.entry, j.params, v["input"])[0] in ("crash", "assert", "hang"):
                        STOP.set()
                        break
            if a.v:
                print("%-28s %-24s %s" % (j.entry, j.params, e or "paths=%d cut=%d q=%d solver=%.1fs wall=%.1fs viol=%d %s%s" % (
                    d["paths"], d["assume_cut"], d["queries"], d["solver_s"], d["wall_s"], len(d["violations"]), "complete" if d["complete"] else "INCOMPLETE ", "; ".join(d["errors"])[:300])), flush=True)
    results.sort(key=lambda r: (r[0].entry, sorted(r[0].params.items())))
    skipped = []
    errors, viols, known, samples, fns = [], [], [], [], set()
    tot = dict(paths=0, steps=0, queries=0, sat=0, unsat=0, unknown=0, forks=0, assume_cut=0, symbolic_branches=0, merges=0, cache_hits=0)
    solver_s = 0.0
    tv = 0
    perjob = []
    kf_seen = {}
    reach = {}
    release = {}
    tasks = []
    for j, d, e in results:
        label = "%s %s" % (j.entry, j.params)
        if e:
            if e == SKIPPED:
                skipped.append(label)
            else:
                errors.append("%s: %s" % (label, e))
            continue
        for k in tot:
            tot[k] += d.get(k, 0)
        solver_s += d["solver_s"]
        fns.update(d["functions"])
        perjob.append(dict(entry=j.entry, params=j.params, bound=j.bound, paths=d["paths"], symbolic_bytes=d["symbolic_bytes"], queries=d["queries"],
                           solver_s=d["solver_s"], wall_s=d["wall_s"], complete=d["complete"]))
        for k, n in d["reach"].items():
            reach[(j.entry, k)] = reach.get((j.entry, k), 0) + n
        binary = irs[(j.crate, j.feature)][1]
        for v in d["violations"]:
            tasks.append(("v", j, v, binary, label))
        if not d["complete"] or d["errors"]:
            errors.append("%s: incomplete: %s" % (label, "; ".join(d["errors"]) or "time limit"))
        if d["unknown"] and d["complete"]:
            pass
        for tr in d["traces"]:
            tasks.append(("t", j, tr, binary, label))
    def do(t):
        kind, j, x, binary, label = t
        return t, native(binary, j.entry, j.params, x["input"])
    with cf.ThreadPoolExecutor(8) as ex:
        for (kind, j, x, binary, label), (st, out, err) in ex.map(do, tasks):
            if kind == "t":
                obs = [list(m) for m in re.findall(r"^OBS (\S+) (\d+)$", out, re.M)]
                want = [[k, str(v)] for k, v in x["obs"]]
                if st != "ok":
                    errors.append("%s: a path the executor completed ends natively as %s (input %s) %s" % (label, st, x["input"][:200], err[-300:]))
                elif (obs[:4096] if len(want) >= 4096 else obs) != want:
                    errors.append("%s: executor and native run disagree on observations (input %s)" % (label, x["input"][:200]))
                else:
                    tv += 1
                    if len(samples) < 6:
                        samples.append(dict(entry=j.entry, params=j.params, input=x["input"][:256], observations=x["obs"][:12]))
                continue
            want = {"assert": ("assert",), "panic": ("crash",), "steplimit": ("hang",), "alloc": ("crash", "hang"), "stack": ("crash",)}.get(x["kind"], ("crash", "assert", "hang"))
            if st not in want and st not in ("crash", "assert", "hang"):
                errors.append("%s: counterexample does not reproduce natively: %s [%s] input=%s native=%s" % (label, x["msg"], x["kind"], x["input"][:200], st))
                continue
            hit = None
            desc = x["msg"] + " @ " + x["loc"]
            for en, rx, txt in kfs:
                if re.fullmatch(en, j.entry) and rx.search(desc):
                    hit = (en, rx.pattern, txt)
                    break
            if hit:
                kf_seen[hit] = x
                continue
            g = (j.crate, j.feature)
            if g not in release:
                release[g] = build_release(*g)
            rst = native(release[g], j.entry, j.params, x["input"])[0] if release[g] else "unavailable"
            rp = os.path.join(rdir, "%s-%s-%s.json" % (prop, j.entry, hashlib.sha256((desc + x["input"] + str(j.params)).encode()).hexdigest()[:10]))
            with open(rp, "w") as f:
                json.dump(dict(property=prop, entry=j.entry, params=j.params, input=x["input"], message=x["msg"], location=x["loc"], kind=x["kind"], stack=x["stack"],
                               native_dev=st, native_release=rst, native_stdout=out[-2000:], native_stderr=err[-2000:],
                               replay="%s %s %s -x %s" % (binary, j.entry, " ".join("-p %s=%d" % kv for kv in j.params.items()), x["input"])), f, indent=1)
            viols.append((desc, rp, st, rst))
    for en in {j.entry for j in jobs}:
        for k in sorted({k for j in jobs if j.entry == en for k in j.reach}):
            if True:
                if not STOP.is_set() and not reach.get((en, str(k))) and not any(r[0].entry == en and r[1] and r[1]["violations"] for r in results):
                    errors.append("%s: vacuous: witness %d not reached" % (en, k))
    for hit, x in sorted(kf_seen.items(), key=lambda t: t[0][2]):
        print("KNOWN-FINDING: property=%s %s" % (prop, hit[2]))
    wall = time.time() - t0
    cov = dict(states=tot["paths"], transitions=tot["steps"], traces_validated_against_impl=tv,
               samples=samples or [dict(note="no trace recorded")],
               harness_runs=len(results), per_harness=perjob,
               functions_encoded=len(fns), functions_encoded_list=sorted(f for f in fns if "keramics" in f)[:120],
               queries_discharged=tot["queries"], query_results=dict(sat=tot["sat"], unsat=tot["unsat"], unknown=tot["unknown"]),
               branches_on_symbolic_values=tot["symbolic_branches"], forks=tot["forks"], merges=tot["merges"],
               solver_time_s=round(solver_s, 3), build_s=round(tb, 2),
               explanation="states = symbolic paths completed (each covers every input satisfying its path condition), transitions = LLVM IR instructions executed symbolically",
               bounds=spec["bounds"], known_findings_confirmed=[h[2] for h in kf_seen],
               undecided=errors, not_run_after_violation=skipped)
    with open(os.path.join(ev, prop + ".json"), "w") as f:
        json.dump(dict(property=prop, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level="model_checking", coverage=cov,
                       assumptions=J.COMMON_ASSUMPTIONS + spec.get("assumptions", []), wall_s=round(wall, 2), violations=len(viols)), f, indent=1)
    print("%s: %d harness runs, %d paths, %d queries (%d unsat), solver %.1fs, %d native traces validated, wall %.1fs" % (
        prop, len(results), tot["paths"], tot["queries"], tot["unsat"], solver_s, tv, wall))
    for e in errors:
        print("CHECK-ERROR: " + e)
    for desc, rp, st, rst in viols[:20]:
        print("  %s (native dev: %s, release: %s)" % (desc, st, rst))
    seen = set()
    for desc, rp, st, rst in viols:
        if desc in seen:
            continue
        seen.add(desc)
        if len(seen) > 8:
            break
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    sys.exit(1 if viols else 2 if errors else 0)


if __name__ == "__main__":
    main()
