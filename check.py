#!/usr/bin/env python3
"""check.py ID [quick|thorough] -- decide one property by symbolic execution of the real code.

Builds the engine, compiles the code of /repo's working tree together with the harnesses to LLVM IR, executes the
harnesses symbolically (rsym / jssym), replays every counterexample against the real code built natively, and writes
evidence/<ID>.json.  Exit 0: held on everything explored (or only listed known findings); 1: VIOLATION; 2: no verdict.
"""
import concurrent.futures as cf
import fcntl, glob, json, os, re, shutil, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(V, "build")
sys.path.insert(0, V)
NCPU = os.cpu_count() or 4
NIGHTLY = "+nightly"
TARGET = "riscv64gc-unknown-linux-gnu"
T0 = time.time()


class NoVerdict(Exception):
    pass


def log(*a):
    print(f"[{time.time() - T0:6.1f}s]", *a, file=sys.stderr, flush=True)


def run(cmd, env=None, cwd=None, timeout=800):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode != 0:
        raise NoVerdict(f"{' '.join(cmd)} failed:\n{p.stdout.decode(errors='replace')[-6000:]}")
    return p.stdout.decode(errors="replace")


class Lock:
    def __init__(self, name):
        os.makedirs(B, exist_ok=True)
        self.path = os.path.join(B, name + ".lock")

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def link_repo():
    with Lock("link"):
        l = os.path.join(B, "repo")
        if not (os.path.islink(l) and os.readlink(l) == REPO):
            if os.path.islink(l):
                os.unlink(l)
            os.symlink(REPO, l)


def build_engine():
    with Lock("engine"):
        run(["cargo", "build", "--release", "--offline"], cwd=f"{V}/rsym", env={"CARGO_TARGET_DIR": f"{B}/rsym"})
    return f"{B}/rsym/release/rsym"


_sysroot = None


def llvm(tool):
    global _sysroot
    if _sysroot is None:
        _sysroot = run(["rustc", NIGHTLY, "--print", "sysroot"]).strip().splitlines()[-1]
    return f"{_sysroot}/lib/rustlib/x86_64-unknown-linux-gnu/bin/{tool}"


SYMFLAGS = ("-Clinker-plugin-lto -Zinline-mir=no -Cllvm-args=-inline-threshold=-100000 "
            "-Cno-vectorize-loops -Cno-vectorize-slp --cap-lints=allow")


def entries_of(area):
    s = open(f"{V}/harness/{area}/src/lib.rs").read()
    return re.findall(r"^\s*fn (\w+)\(\) \{", s[s.index("harnesses!"):], re.M)


def build_sym(area, feature=None):
    """compile harness + real code to one LLVM IR module"""
    with Lock("symt"):
        d = f"{V}/harness/{area}/sym"
        cmd = ["cargo", NIGHTLY, "build", "--release", "--offline", "-Zbuild-std=std,panic_abort", "--target", TARGET]
        if feature:
            cmd += ["--features", feature]
        t = time.time()
        run(cmd, cwd=d, env={"CARGO_TARGET_DIR": f"{B}/symt", "RUSTFLAGS": SYMFLAGS})
        log(f"compiled {area} to IR in {time.time() - t:.1f}s")
        out = f"{B}/ir/{area}{'-' + feature if feature else ''}"
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        run([llvm("llvm-ar"), "x", f"{B}/symt/{TARGET}/release/libh.a"], cwd=out)
        for f in glob.glob(out + "/*compiler_builtins*"):
            os.unlink(f)
        objs = sorted(glob.glob(out + "/*.o"))
        run([llvm("llvm-link")] + objs + ["-o", "all.bc"], cwd=out)
        run([llvm("opt"), "-passes=internalize,globaldce", "--internalize-public-api-list=" + ",".join(entries_of(area)), "all.bc", "-o", "g.bc"], cwd=out)
        run([llvm("llvm-dis"), "g.bc", "-o", "g.ll"], cwd=out)
        for f in objs + [out + "/all.bc", out + "/g.bc"]:
            os.unlink(f)
    log(f"IR of {area}: {os.path.getsize(out + '/g.ll') >> 10} KiB")
    return out + "/g.ll"


def build_nat(area, release, feature=None):
    t = f"{B}/nat-{area}{'-' + feature if feature else ''}"
    with Lock(os.path.basename(t) + ("r" if release else "d")):
        run(["cargo", "build", "--offline"] + (["--release"] if release else []) + (["--features", feature] if feature else []),
            cwd=f"{V}/harness/{area}/nat", env={"CARGO_TARGET_DIR": t + ("r" if release else "d"), "RUSTFLAGS": "--cap-lints=allow"})
    return f"{t}{'r' if release else 'd'}/{'release' if release else 'debug'}/nat"


def nat_run(exe, entry, case, inputs, timeout=20):
    """replay one input vector natively; returns (status, output)"""
    d = tempfile.mkdtemp(prefix="nat", dir=f"{B}/tmp")
    try:
        with open(d + "/.inputs", "w") as f:
            f.write("\n".join(inputs) + "\n")
        try:
            p = subprocess.run([exe, entry, ".inputs", str(case)], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired as e:
            return "hang", (e.stdout or b"").decode(errors="replace")
        o = p.stdout.decode(errors="replace")
        err = p.stderr.decode(errors="replace")
        rc = p.returncode
        if rc == 0:
            return "ok", o
        if rc == 10:
            return "check", o
        if rc == 11:
            return "alloc", o
        if rc == 12:
            return "diverged", o
        if "memory allocation of" in err and "failed" in err:
            return "alloc", o + err
        return "panic", o + err[-600:]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def shash(s):
    import hashlib
    return hashlib.sha256(s.encode()).hexdigest()[:12]


DEADLINE = {"quick": 780, "thorough": 11000}


def pool(rep, jobs, one):
    """run one(job, procs) for every job; once one has confirmed a violation, the rest is stopped.  Returns the results that came in."""
    res, stop, live, lock = [], threading.Event(), set(), threading.Lock()

    def start(cmd, **kw):
        with lock:
            if stop.is_set():
                return None
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
            live.add(p)
        out, err = p.communicate()
        with lock:
            live.discard(p)
        return None if stop.is_set() else subprocess.CompletedProcess(cmd, p.returncode, out, err)

    def halt():
        with lock:
            stop.set()
            for p in live:
                p.kill()

    def task(j):
        if stop.is_set():
            return None
        left = DEADLINE[rep.tier] - (time.time() - T0)
        if left < 15:
            rep.incomplete.append(f"{j[0]}[{j[1]}]: not started, time used up")
            return None
        try:
            r = one(j, start, left)
        except NoVerdict as e:
            rep.failed.append(str(e))
            return None
        if r is not None and r.pop("confirmed", False):
            rep.stopped = True
            halt()
        return r

    with cf.ThreadPoolExecutor(NCPU) as ex:
        for r in ex.map(task, jobs):
            if r is not None:
                res.append(r)
    return res


SOFT = re.compile(r"time budget|solver gave no answer|undecided")


class Report:
    def __init__(self, pid, tier, title):
        self.failed, self.incomplete, self.stopped = [], [], False
        self.pid, self.tier, self.title = pid, tier, title
        self.runs = []
        self.lock = threading.Lock()
        self.violations = []  # (label, msg, replay dict)
        self.known = []
        self.spurious = []
        self.inconclusive = []
        self.missing = []
        self.replays = 0
        self.mismatch = []
        self.functions = set()
        self.extra = {}


def load_known():
    k = []
    p = f"{V}/known_findings.json"
    if os.path.exists(p):
        k = json.load(open(p))["findings"]
    return k


def sym_part(rep, area, jobs, feature=None, budget=600, samples=4, reach=(), replay=True):
    """jobs: list of (entry, case). Run them all, replay, aggregate."""
    os.makedirs(f"{B}/tmp", exist_ok=True)
    os.makedirs(f"{B}/out", exist_ok=True)
    link_repo()
    with cf.ThreadPoolExecutor(4) as ex:
        fe = ex.submit(build_engine)
        fi = ex.submit(build_sym, area, feature)
        fn = [ex.submit(build_nat, area, r, feature) for r in (False, True)] if replay else []
        rsym, ll = fe.result(), fi.result()
        nats = [f.result() for f in fn]

    known = [k for k in load_known() if k["property"] == rep.pid]

    def one(j, start, left):
        entry, case = j
        out = f"{B}/out/{rep.pid}-{entry}-{case}-{os.getpid()}.json"
        cmd = [rsym, ll, entry, "--case", str(case), "--budget", str(int(min(budget, left))), "--out", out, "--samples", str(samples)]
        if rep.tier == "thorough":
            cmd += ["--hard-ms", "120000"]
        if os.environ.get("VERIF_DUMP"):
            cmd += ["--dump", f"{os.environ['VERIF_DUMP']}/{rep.pid}-{entry}-{case}"]
        p = start(cmd)
        if p is None:
            if os.path.exists(out):
                os.unlink(out)
            return None
        if p.returncode != 0 or not os.path.exists(out):
            raise NoVerdict(f"engine failed on {entry} case {case}: {p.stderr.decode(errors='replace')[-1500:]}")
        r = json.load(open(out))
        os.unlink(out)
        r["area"] = area
        n = len(rep.violations)
        judge(r, entry, case)
        r["confirmed"] = len(rep.violations) > n
        return r

    def judge(r, entry, case):
        rep.functions |= set(r.pop("functions"))
        for k, n in r["inconclusive"].items():
            (rep.incomplete if SOFT.search(k) else rep.inconclusive).append(f"{entry}[{case}]: {k} (x{n})")
        # counterexamples: replay on the real code, debug and release
        for v in r["violations"]:
            kind = v["label"].split("@")[0]
            got = []
            if replay:
                rep.replays += 1
                for exe in nats:
                    st, o = nat_run(exe, entry, case, v["inputs"])
                    got.append(st)
            ok = {"panic": ("panic",), "alloc": ("alloc",), "hang": ("hang", "alloc"), "abort": ("panic", "alloc"), "stack-overflow": ("panic",), "memory": ("panic",)}.get(kind, ("check", "panic", "alloc", "hang"))
            rec = dict(property=rep.pid, area=area, feature=feature, entry=entry, case=case, label=v["label"], msg=v["msg"], inputs=v["inputs"],
                       stack=v["stack"][:12], replay=dict(zip(("debug", "release"), got)))
            if replay and not any(g in ok for g in got):
                rep.spurious.append(rec)
                continue
            kn = next((k for k in known if re.search(k["match"], f"{entry} {v['label']}")), None)
            if kn:
                rep.known.append((kn, rec))
            else:
                rep.violations.append(rec)
        # agreement of engine and real code on sampled passing paths
        if replay:
            for s in r["samples"]:
                rep.replays += 1
                st, o = nat_run(nats[0], entry, case, s["inputs"])
                if st != "ok":
                    rep.mismatch.append(f"{entry}[{case}] passing path replays as {st}: {o.strip()[-300:]} inputs={s['inputs']}")
                    continue
                for name, hexv in s["observed"]:
                    if f"OBSERVE {name} {hexv}" not in o:
                        rep.mismatch.append(f"{entry}[{case}] observation {name} differs")
                for l in s["reached"]:
                    if f"REACH {l}" not in o and l != "fault-injected":
                        rep.mismatch.append(f"{entry}[{case}] label {l} not reached natively")
        r["sample_paths"] = r.pop("samples")
        r.pop("violations")
        rep.runs.append(r)

    jobs = list(jobs)
    results = pool(rep, jobs, one)
    reached = set().union(*[set(r["reach"]) for r in results])
    for l in reach:
        if l not in reached and not rep.stopped:
            (rep.incomplete if rep.incomplete else rep.missing).append(f"never reached: {l}")
    log(f"{area}: {len(jobs)} runs, {sum(r['paths'] for r in results)} paths, {sum(r['queries'] for r in results)} queries, "
        f"{sum(r['solver_s'] for r in results):.1f}s solver; slowest run {max((r['total_s'] for r in results), default=0):.1f}s")


def finish(rep, spec):
    pid = rep.pid
    os.makedirs(f"{V}/evidence", exist_ok=True)
    os.makedirs(f"{V}/evidence/replay", exist_ok=True)
    vio = {}
    for r in rep.violations:
        vio.setdefault(r["label"], r)
    lines = []
    for label, r in vio.items():
        p = f"{V}/evidence/replay/{pid}-{shash(label)}.json"
        json.dump(r, open(p, "w"), indent=1)
        lines.append(f"VIOLATION property={pid} replay={p}")
    for kid in sorted({k["id"] for k, _ in rep.known}):
        k = next(k for k, _ in rep.known if k["id"] == kid)
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    status = "violated" if lines else "held"
    problems = []
    if rep.failed:
        problems.append("; ".join(rep.failed[:3]))
    if rep.spurious:
        problems.append(f"{len(rep.spurious)} counterexamples did not replay on the real code: " + "; ".join(f"{r['entry']}[{r['case']}] {r['label']} ({r['msg']}) {r['replay']} inputs={r['inputs']}" for r in rep.spurious[:3]))
    if rep.inconclusive:
        problems.append("undecided: " + "; ".join(rep.inconclusive[:5]))
    if rep.missing:
        problems.append(", ".join(rep.missing))
    if rep.mismatch:
        problems.append("engine and real code disagree: " + "; ".join(rep.mismatch[:3]))
    if problems and not lines:
        status = "undecided"
    fns = sorted(f for f in rep.functions)
    ours = [f for f in fns if re.match(r"<?(h::|h_|crate::)", f) or "zkenc" in f or f.startswith(("packages/",))]
    if rep.incomplete and not lines:
        print(f"  INCOMPLETE: not explored to the end: {'; '.join(rep.incomplete[:5])}" + (f" and {len(rep.incomplete) - 5} more" if len(rep.incomplete) > 5 else ""))
        status = "held on what was explored" if status == "held" else status
    tot = lambda k: sum(r.get(k, 0) for r in rep.runs)
    ev = {
        "property": pid, "title": rep.title, "tier": rep.tier, "verdict": status,
        "technique": spec["technique"],
        "bounds": spec["bounds"][rep.tier] if isinstance(spec["bounds"], dict) else spec["bounds"],
        "outside": spec.get("outside", ""),
        "functions_encoded": {"total": len(fns), "of_the_repository": ours},
        "queries": tot("queries"), "queries_sat": tot("sat"), "queries_unsat": tot("unsat"), "queries_unknown": tot("unknown"),
        "solver_seconds": round(tot("solver_s"), 3), "paths": tot("paths"), "assertions_checked": tot("checks"),
        "assertions_decided_by_solver": tot("checks") - tot("checks_concrete"),
        "ir_steps": tot("steps"), "native_replays": rep.replays, "wall_seconds": round(time.time() - T0, 1),
        "runs": rep.runs,
        "violations": list(vio.values()), "known_findings": [{"id": k["id"], "what": k["what"], "counterexample": r} for k, r in rep.known],
        "problems": problems, "not_explored_to_the_end": rep.incomplete, "stopped_at_first_violation": rep.stopped,
    }
    ev["extra"] = rep.extra
    ev["assumptions"] = spec.get("assumptions", [])
    ev = shape(ev)
    json.dump(ev, open(f"{V}/evidence/{pid}.json", "w"), indent=1)
    for l in lines:
        print(l)
    for label, r in vio.items():
        print(f"  {label}: {r['msg']} inputs={json.dumps(r['inputs'])[:400]}")
    for p in problems:
        print(f"  problem: {p}")
    print(f"{pid} {rep.tier}: {status}; {tot('paths')} paths, {tot('queries')} queries, {tot('solver_s'):.1f}s solver, {time.time() - T0:.1f}s")
    return 1 if lines else (2 if problems else 0)


def shape(ev):
    """the form of /root/.vp/EVIDENCE.schema.json"""
    samples = []
    for r in ev["runs"]:
        for smp in r.pop("sample_paths", [])[:2]:
            if len(samples) < 6:
                samples.append({"entry": r["entry"], "case": r["case"], "inputs_of_one_path": smp["inputs"], "reached": smp["reached"]})
    cov = {
        "states": ev["paths"], "transitions": ev["ir_steps"], "traces_validated_against_impl": ev["native_replays"],
        "samples": samples or [{"entry": r["entry"], "case": r["case"], "paths": r["paths"]} for r in ev["runs"][:4]],
        "meaning": "states: symbolic execution paths completed, each standing for all inputs that satisfy its path condition; transitions: IR instructions "
                   "executed symbolically; traces_validated_against_impl: solver-made inputs run on the natively compiled real code and compared",
    }
    for k in ("verdict", "technique", "bounds", "outside", "functions_encoded", "queries", "queries_sat", "queries_unsat", "queries_unknown", "solver_seconds",
              "assertions_checked", "assertions_decided_by_solver", "problems", "not_explored_to_the_end", "stopped_at_first_violation", "runs", "known_findings"):
        cov[k] = ev[k]
    cov.update(ev.get("extra", {}))
    return {
        "property": ev["property"], "title": ev["title"], "tier": ev["tier"], "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking", "coverage": cov, "assumptions": ev["assumptions"], "wall_s": ev["wall_seconds"],
        "violations": len(ev["violations"]), "violation_details": ev["violations"],
    }


def main():
    import specs
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    spec = specs.SPECS[pid]
    rep = Report(pid, tier, spec["title"])
    evp = f"{V}/evidence/{pid}.json"
    if os.path.exists(evp):
        os.unlink(evp)
    try:
        for part in spec["parts"]:
            if rep.stopped:
                break
            jobs = part["jobs"](tier)
            if part["kind"] == "rust":
                sym_part(rep, part["area"], jobs, part.get("feature"), budget=part.get("budget", {"quick": 500, "thorough": 6000})[tier], reach=part.get("reach", ()))
            else:
                import jscheck
                jscheck.js_part(rep, part, jobs, tier)
        rc = finish(rep, spec)
    except NoVerdict as e:
        print(f"{pid}: no verdict: {e}")
        rc = 2
    sys.exit(rc)


if __name__ == "__main__":
    sys.modules["check"] = sys.modules["__main__"]
    main()
