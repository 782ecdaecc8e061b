#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property: compiles the harnesses together with /repo's current source to LLVM IR, executes
the harness functions of the property symbolically (engine/), and lets the SMT solver decide every
assertion for all inputs within the bounds of each job (jobs.py). A counterexample is replayed natively
against the real code; only a reproduced one is a violation.

exit 0: held on everything decided; 1: VIOLATION line; 2: no answer.
"""
import concurrent.futures as cf
import fcntl, hashlib, json, os, random, re, resource, shutil, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import jobs as J  # noqa: E402

TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
ENG = os.path.join(V, "engine/target/release/symir")
HARNESS = os.path.join(V, "harness")
WORK = os.path.join(V, "work")
NCPU = int(os.environ.get("VERIF_CPUS", "8"))


def run(cmd, **kw):
    env = dict(os.environ)
    env.update({"RUSTUP_TOOLCHAIN": TOOLCHAIN, "CARGO_NET_OFFLINE": "true"})
    for k in list(env):
        if k.startswith("RUSTFLAGS") or k in ("CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"):
            del env[k]
    return subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


class NoAnswer(Exception):
    pass


def tree_hash():
    """contents of everything the IR is made from"""
    h = hashlib.sha256()
    for base in ("/repo", HARNESS):
        for d, dirs, files in os.walk(base):
            dirs[:] = sorted(x for x in dirs if x not in ("target", ".git"))
            for f in sorted(files):
                if f.endswith((".rs", ".toml", ".lock")) or "src" in d:
                    p = os.path.join(d, f)
                    if os.path.isfile(p):
                        h.update(p.encode() + b"\0")
                        h.update(open(p, "rb").read())
    return h.hexdigest()[:16]


def target_dir():
    """a build directory of its own for every state of the sources: file times are never relied on"""
    t = os.path.join(WORK, "t-" + tree_hash())
    if os.path.isdir(WORK):
        for d in os.listdir(WORK):
            p = os.path.join(WORK, d)
            if d.startswith("t-") and p != t and time.time() - os.path.getmtime(p) > 1800:
                shutil.rmtree(p, ignore_errors=True)
    os.makedirs(t, exist_ok=True)
    return t


def build_engine():
    r = run(["cargo", "build", "--release", "--offline", "--quiet"], cwd=os.path.join(V, "engine"))
    if r.returncode:
        raise NoAnswer("engine does not build:\n" + r.stderr[-3000:])


def build_ir(tdir):
    """IR of the harness crate and of everything it calls in /repo, from the current sources"""
    r = run(["cargo", "rustc", "--release", "--offline", "--lib", "--crate-type", "cdylib", "--quiet",
             "--target-dir", tdir, "--",
             "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"], cwd=HARNESS)
    if r.returncode:
        raise NoAnswer("harness does not build against /repo:\n" + r.stderr[-3000:])
    ll = os.path.join(tdir, "release/deps/harness.ll")
    if not os.path.exists(ll):
        raise NoAnswer("no IR produced")
    return ll


def build_replay(tdir):
    r = run(["cargo", "build", "--profile", "replay", "--bin", "replay", "--offline", "--quiet", "--target-dir", tdir], cwd=HARNESS)
    if r.returncode:
        raise NoAnswer("replay binary does not build:\n" + r.stderr[-3000:])
    return os.path.join(tdir, "replay/replay")


def symir(ll, job, timeout, extra=()):
    cmd = [ENG, "--ll", ll, "--func", job.func, "--timeout", str(timeout)]
    for a in job.args:
        cmd += ["--arg", str(a)]
    cmd += list(extra)
    t0 = time.time()
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout + 60,
                           preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30)))
    except subprocess.TimeoutExpired:
        return {"status": "error", "why": "engine exceeded its time", "wall_s": time.time() - t0}
    for line in r.stdout.splitlines():
        if line.startswith("{"):
            try:
                return json.loads(line)
            except ValueError:
                pass
    return {"status": "error", "why": (r.stderr or r.stdout)[-400:] or f"exit {r.returncode}", "wall_s": time.time() - t0}


def replay(binary, func, args, model, out=False):
    cmd = [binary, func, ",".join(map(str, args)), model] + (["--out"] if out else [])
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
    except subprocess.TimeoutExpired:
        return "FAIL does not terminate within 120 s", ""
    if r.returncode < 0:
        return f"FAIL killed by signal {-r.returncode}", ""
    ls = r.stdout.splitlines()
    if not ls:
        return "FAIL no result: " + r.stderr[-200:], ""
    return ls[0], "\n".join(ls[1:])


def demangle(names):
    try:
        r = subprocess.run(["/usr/bin/env", "llvm-cxxfilt-18"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
        out = r.stdout.split("\n")
        if len(out) >= len(names):
            return out[: len(names)]
    except OSError:
        pass
    res = []
    for n in names:
        p = re.findall(r"(?<=\d)(?:_?)([A-Za-z_]\w*?)(?=\d|E|$)", n)
        res.append(n)
    return res


def load_known(prop):
    res = []
    p = os.path.join(V, "KNOWN_FINDINGS.md")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) job=(\S+) match=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3), m.group(4)))
    return res


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    budget = float(os.environ.get("VERIF_BUDGET", "660" if tier == "quick" else "5400"))
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    evp = os.path.join(V, "evidence", prop + ".json")
    if os.path.exists(evp):
        os.remove(evp)
    with open(os.path.join(WORK, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        build_engine()
        tdir = target_dir()
        ll = build_ir(tdir)
        llc = os.path.join(WORK, f"{prop}.{os.getpid()}.ll")
        shutil.copyfile(ll, llc)
        rb = build_replay(tdir)
        rbc = os.path.join(WORK, f"replay.{prop}.{os.getpid()}")
        shutil.copy2(rb, rbc)
    t_build = time.time() - t0
    try:
        code = decide(prop, tier, seed, t0, budget, llc, rbc, evp, t_build)
    finally:
        os.remove(llc)
        os.remove(rbc)
    return code


def decide(prop, tier, seed, t0, budget, ll, rb, evp, t_build):
    spec = J.PROPS[prop]
    js = spec.jobs(tier)
    # bring counterexample-prone small jobs first, keep declared order otherwise
    results = [None] * len(js)
    stop = threading.Event()
    violations, known, unrepro = [], [], []
    kf = load_known(prop)
    lock = threading.Lock()
    hard = {}  # harness -> jobs without an answer so far

    def one(i):
        j = js[i]
        left = budget - (time.time() - t0)
        if stop.is_set() or left < 3:
            results[i] = {"status": "skipped"}
            return
        # many jobs of a harness without an answer: the rest get less time each, so that all are tried
        n = hard.get(j.func, 0) if tier == "quick" else 0
        cap = j.timeout if n < 8 else 20 if n < 24 else 6
        r = symir(ll, j, max(2, min(cap, int(left) - 2)))
        if r["status"] in ("inconclusive", "error"):
            with lock:
                hard[j.func] = hard.get(j.func, 0) + 1
        if r["status"] in ("inconclusive", "error") and "join" in r:
            # once more with the other way of joining paths
            left = budget - (time.time() - t0)
            if left > 10 and not stop.is_set() and n < 24:
                r2 = symir(ll, j, max(2, min(cap, int(left) - 2)), ["--force-join", "0" if r["join"] == 2 else "2"])
                if r2["status"] in ("holds", "violated"):
                    r = r2
        results[i] = r
        if r["status"] == "violated":
            model = r["violation"].get("model", "")
            verdict, _ = replay(rb, j.func, j.args, model)
            with lock:
                if verdict.startswith("FAIL"):
                    tag = f"{j.func}({','.join(map(str, j.args))})"
                    for fj, fm, what in kf:
                        if fj == tag and re.search(fm, model + " " + verdict):
                            known.append((tag, what))
                            break
                    else:
                        violations.append((j, r, model, verdict))
                        if tier == "quick":
                            stop.set()
                else:
                    unrepro.append((j, r, model, verdict))

    with cf.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(one, range(len(js))))

    # vacuity: what must be reachable was reached; the engine agrees with the machine on sample inputs
    undecided, vacuous = [], []
    for j, r in zip(js, results):
        if r["status"] == "holds":
            miss = [w for w in j.reach if str(w) not in r.get("reached", {})]
            if miss:
                vacuous.append((j, miss))
        elif r["status"] not in ("violated", "skipped"):
            why = r.get("why") or "; ".join(r.get("inconclusive", [])[:2])
            undecided.append((j, why))
        elif r["status"] == "skipped" and not stop.is_set():
            undecided.append((j, "time budget"))
    validated, mismatch = (0, []) if violations else validate(js, results, ll, rb, seed, 4 if tier == "quick" else 24)

    held = [(j, r) for j, r in zip(js, results) if r["status"] == "holds" and not any(v[0] is j for v in vacuous)]
    core_undecided = [u for u in undecided if u[0].core]
    ncore = sum(1 for j in js if j.core)
    print(f"{prop} [{tier}] {len(js)} jobs: {len(held)} hold, {len(violations)} violated, {len(undecided)} undecided, "
          f"build {t_build:.1f}s total {time.time() - t0:.1f}s")
    if os.environ.get("VERIF_SLOW"):
        for j, r in sorted(zip(js, results), key=lambda x: -(x[1].get("wall_s") or 0))[:12]:
            print(f"  {r.get('wall_s')} s {j} {r['status']}")
    for j, why in undecided[:12]:
        print(f"UNDECIDED {j}: {why[:300]}")
    for j, miss in vacuous[:12]:
        print(f"VACUOUS {j}: never reached {miss}")
    for j, r, model, verdict in unrepro:
        print(f"NOT-REPRODUCED {j}: {r['violation']} -> {verdict}")
    for m in mismatch:
        print("ENGINE-MISMATCH " + m)
    for tag, what in sorted(set(known)):
        print(f"KNOWN-FINDING: property={prop} {tag} {what}")
    write_evidence(prop, tier, seed, spec, js, results, held, undecided, violations, known, validated, t0, t_build, evp)

    if violations:
        seen = set()
        for j, r, model, verdict in violations:
            rp = write_replay(prop, j, r, model, verdict)
            if rp in seen:
                continue
            seen.add(rp)
            print(f"  {j}: {verdict}")
            print(f"VIOLATION property={prop} replay={rp}")
        return 1
    if unrepro or mismatch or vacuous:
        return 2
    # no answer at all: nothing of the core was decided
    if not held or len(core_undecided) == ncore:
        return 2
    return 0


def validate(js, results, ll, rb, seed, n):
    """the encoding against the machine: random concrete inputs through both, outputs compared"""
    rng = random.Random(seed)
    cand = [(j, r) for j, r in zip(js, results) if r["status"] == "holds" and r.get("sym_bytes", 0) > 0]
    rng.shuffle(cand)
    done, bad = 0, []
    for j, r in cand[:n]:
        model = bytes(rng.randrange(256) for _ in range(r["sym_bytes"])).hex()
        e = symir(ll, j, 60, ["--concrete", model])
        verdict, outs = replay(rb, j.func, j.args, model, True)
        if e["status"] == "error":
            continue
        m = re.search(r"^outs (.*)$", outs, re.M)
        eo = " ".join(e.get("outputs", []))
        if verdict == "SKIP" or verdict.startswith("PASS refused"):
            done += e["status"] == "holds"
        elif verdict == "PASS" and e["status"] == "holds":
            if m and m.group(1).replace(" ", "") == eo.replace(" ", ""):
                done += 1
            else:
                bad.append(f"{j} input {model}: engine {eo[:200]} machine {m and m.group(1)[:200]}")
        elif verdict.startswith("FAIL") and e["status"] == "violated":
            bad.append(f"{j} input {model}: a violation the symbolic run did not find: {verdict}")
        else:
            bad.append(f"{j} input {model}: engine {e['status']} machine {verdict}")
    return done, bad


def write_replay(prop, j, r, model, verdict):
    d = os.path.join(WORK, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(f"{j.func}{j.args}{model}".encode()).hexdigest()[:10]
    p = os.path.join(d, f"{prop}-{h}.sh")
    with open(p, "w") as f:
        f.write(f"""#!/bin/bash
# {prop}: {verdict}
# harness {j.func}{tuple(j.args)}, symbolic inputs in order of creation: {model}
# exit 1 while the violation is there
t=$(mktemp -d) && trap 'rm -r "$t"' EXIT
cd "{HARNESS}" && RUSTUP_TOOLCHAIN={TOOLCHAIN} cargo build --profile replay --bin replay --offline --quiet --target-dir "$t" || exit 2
out=$("$t"/replay/replay {j.func} {','.join(map(str, j.args))} "{model}")
echo "$out"
case "$out" in FAIL*) exit 1;; esac
""")
    os.chmod(p, 0o755)
    return p


def write_evidence(prop, tier, seed, spec, js, results, held, undecided, violations, known, validated, t0, t_build, evp):
    tot = lambda k: sum(r.get(k, 0) or 0 for r in results if isinstance(r.get(k, 0), (int, float)))
    fns = set()
    stubs = set()
    for r in results:
        fns |= set(r.get("functions", []))
        stubs |= set(r.get("stubs", []))
    dm = demangle(sorted(fns))
    dm = [re.sub(r"\[[0-9a-f]{16}\]|::h[0-9a-f]{16}$", "", d) for d in dm]
    repo_fns = sorted({d for d in dm if "cryptography" in d})
    samples = []
    for j, r in (held[:2] + held[-2:]):
        samples.append({"job": str(j), "bound": j.bound, "symbolic_bytes": r.get("sym_bytes"), "paths": r.get("paths"),
                        "assertions": r.get("checks"), "queries": r.get("queries"), "solver_s": r.get("solver_s"), "wall_s": r.get("wall_s")})
    by_h = {}
    for j, r in zip(js, results):
        b = by_h.setdefault(j.func, {"jobs": 0, "hold": 0, "bound": set()})
        b["jobs"] += 1
        b["hold"] += r["status"] == "holds"
        b["bound"].add(j.bound)
    for b in by_h.values():
        b["bound"] = sorted(b["bound"])[:40]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": spec.explain,
            "bounds": spec.bounds,
            "outside": spec.outside,
            "jobs": len(js), "jobs_held": len(held), "jobs_undecided": len(undecided),
            "undecided": [f"{j}: {w[:160]}" for j, w in undecided[:30]],
            "harnesses": by_h,
            "functions_encoded": repo_fns,
            "all_functions_executed": len(fns),
            "stubs": sorted(stubs),
            "instructions_executed_symbolically": tot("insts"),
            "symbolic_input_bytes": tot("sym_bytes"),
            "paths": tot("paths"), "forks": tot("forks"), "merges": tot("merges"),
            "assertions": tot("checks"),
            "assertions_closed_by_term_rewriting": tot("checks_by_simplification"),
            "decided_by_bit_blasting": {"queries": tot("sat_queries"), "unsat": tot("sat_unsat"), "conflicts": tot("sat_conflicts"),
                                        "unsat_asked_again_of_z3": tot("sat_cross_checked"), "s": round(tot("sat_s"), 2)},
            "solver_queries": tot("queries"), "unsat": tot("unsat"), "sat": tot("sat"), "unknown": tot("unknown"),
            "feasibility_queries": tot("feasibility_queries"),
            "internal_equalities_proved": tot("sweep_merged"),
            "solver_s": round(tot("solver_s"), 2),
            "max_query_s": max([r.get("max_query_s", 0) or 0 for r in results] or [0]),
            "inputs_cross_checked_engine_vs_native": validated,
            "build_s": round(t_build, 1),
            "samples": samples,
            "known_findings": sorted({k[0] for k in known}),
        },
        "assumptions": J.ASSUME + spec.assume,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    with open(evp, "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except NoAnswer as e:
        print("NO ANSWER: " + str(e))
        sys.exit(2)
