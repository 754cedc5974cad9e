"""The JavaScript side: run jssym on the package's TypeScript, replay its models on the uninstrumented code."""
import concurrent.futures as cf
import json, os, re, subprocess, tempfile
import check as C

V, B = C.V, C.B
J = f"{V}/jssym"


def env():
    e = dict(os.environ)
    e["VERIF_REPO"] = C.REPO
    e.pop("NODE_OPTIONS", None)
    return e


def replay(area, entry, case, vectors):
    """status and output of each input vector on the real code"""
    res = []
    vectors = list(vectors)
    while len(res) < len(vectors):
        f = tempfile.NamedTemporaryFile("w", suffix=".json", dir=f"{B}/tmp", delete=False)
        json.dump(vectors[len(res):], f)
        f.close()
        try:
            p = subprocess.run(["node", f"{J}/native.mjs", area, entry, str(case), f.name], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, env=env(), cwd=V)
            out, err, late = p.stdout, p.stderr, False
        except subprocess.TimeoutExpired as x:
            out, err, late = x.stdout or b"", b"", True
        finally:
            os.unlink(f.name)
        got = [json.loads(l) for l in out.decode(errors="replace").splitlines() if l.startswith("{")]
        res += got
        if len(res) < len(vectors):
            res.append({"status": "hang" if late else "panic", "msg": err.decode(errors="replace")[-400:], "reached": [], "observed": []})
    return res


def js_part(rep, part, jobs, tier):
    area = part["area"]
    for d in ("tmp", "out"):
        os.makedirs(f"{B}/{d}", exist_ok=True)
    budget = part.get("budget", {"quick": 400, "thorough": 6000})[tier]

    known = [k for k in C.load_known() if k["property"] == rep.pid]

    def one(j, start, left):
        entry, case = j
        out = f"{B}/out/{rep.pid}-{entry}-{case}-{os.getpid()}.json"
        cmd = ["node", "--stack-size=4000", f"{J}/main.mjs", area, entry, "--case", str(case), "--budget", str(int(min(budget, left))), "--out", out, "--hard-ms", "20000" if tier == "quick" else "120000"]
        if os.environ.get("VERIF_DUMP"):
            cmd += ["--dump", f"{os.environ['VERIF_DUMP']}/{rep.pid}-{entry}-{case}"]
        p = start(cmd, env=env(), cwd=V)
        if p is None:
            if os.path.exists(out):
                os.unlink(out)
            return None
        if p.returncode != 0 or not os.path.exists(out):
            raise C.NoVerdict(f"engine failed on {entry} case {case}: {(p.stdout + p.stderr).decode(errors='replace')[-1500:]}")
        r = json.load(open(out))
        os.unlink(out)
        r["area"] = area
        vec = [v["inputs"] for v in r["violations"]] + [s["inputs"] for s in r["samples"]]
        nat = replay(area, entry, case, vec) if vec else []
        with rep.lock:
            n = len(rep.violations)
            judge(r, nat, entry, case)
            r["confirmed"] = len(rep.violations) > n
        return r

    def judge(r, nat, entry, case):
        rep.replays += len(nat)
        rep.functions |= set(r.pop("functions"))
        for k, n in r["inconclusive"].items():
            (rep.incomplete if C.SOFT.search(k) else rep.inconclusive).append(f"{entry}[{case}]: {k} (x{n})")
        vs = r.pop("violations")
        for v, n in zip(vs, nat):
            kind = v["label"].split("@")[0]
            want = {"exception": ("panic",), "hang": ("hang",), "stuck": ("hang",), "alloc": ("panic", "hang")}.get(kind, ("check",))
            ok = n["status"] in want or (n["status"] in ("check", "panic", "hang") and kind not in ("alloc",))
            if kind == "alloc" and n["status"] == "ok":
                ok = True  # a huge buffer is a finding whether or not this machine grants it
            rec = dict(property=rep.pid, area=area, feature=None, entry=entry, case=case, label=v["label"], msg=v["msg"], inputs=v["inputs"], stack=v["stack"], replay={"node": n["status"], "message": n["msg"][:300]})
            if not ok:
                rep.spurious.append(rec)
                continue
            kn = next((k for k in known if re.search(k["match"], f"{entry} {v['label']}")), None)
            (rep.known.append((kn, rec)) if kn else rep.violations.append(rec))
        for s, n in zip(r["samples"], nat[len(vs):]):
            if n["status"] != "ok":
                rep.mismatch.append(f"{entry}[{case}] passing path replays as {n['status']}: {n['msg'][:200]} inputs={s['inputs']}")
                continue
            if [list(x) for x in s["observed"]] != n["observed"]:
                rep.mismatch.append(f"{entry}[{case}] observations differ: {s['observed']} natively {n['observed']} inputs={s['inputs']}")
            for l in s["reached"]:
                if l not in n["reached"]:
                    rep.mismatch.append(f"{entry}[{case}] label {l} not reached natively")
        r["sample_paths"] = r.pop("samples")
        rep.runs.append(r)

    jobs = list(jobs)
    results = C.pool(rep, jobs, one)
    reached = set().union(*[set(r["reach"]) for r in results])
    for l in part.get("reach", ()):
        if l not in reached and not rep.stopped:
            (rep.incomplete if rep.incomplete else rep.missing).append(f"never reached: {l}")
    C.log(f"{area}: {len(jobs)} runs, {sum(r['paths'] for r in results)} paths, {sum(r['queries'] for r in results)} queries, "
          f"{sum(r['solver_s'] for r in results):.1f}s solver; slowest run {max((r['total_s'] for r in results), default=0):.1f}s")
