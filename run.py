#!/usr/bin/env python3
"""Runs the monitors of one property against /repo's working tree.

  run.py P01               check one property (VERIF_TIER, VERIF_SEED from the environment)
  run.py --replay FILE     run the recorded failing case again

Exit 0: held on everything explored.  Exit 1 + 'VIOLATION property=.. replay=..': broken.
Exit 2: the check itself could not run (harness does not build, nothing observed).
"""
import hashlib, json, os, re, resource, shutil, signal, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("FFCL_REPO", "/repo")
BUILD = os.path.join(HERE, ".build")
EVID = os.path.join(HERE, "evidence")
JOBS = min(8, os.cpu_count() or 4)

sys.path.insert(0, HERE)
from checks import CHECKS, MODES  # noqa: E402


def log(*a):
    print(*a, flush=True)


def tree_digest():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, "include", "ffcl"), os.path.join(HERE, "harness")):
        for root, dirs, files in os.walk(base):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(root, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def compile_job(job, digest):
    mode = MODES[job["mode"]]
    src = os.path.join(HERE, "harness", job["src"])
    flags = mode["flags"] + job.get("flags", [])
    tag = hashlib.sha256((digest + job["src"] + mode["cxx"] + " ".join(flags)).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, f"{os.path.splitext(job['src'])[0]}-{job['mode']}-{tag}")
    if os.path.exists(exe):
        return exe, None
    os.makedirs(BUILD, exist_ok=True)
    tmp = exe + f".tmp{os.getpid()}.{threading.get_ident()}"
    extra = [os.path.join(HERE, "harness", s) for s in mode.get("extra_src", [])]
    cmd = [mode["cxx"], "-std=gnu++17"] + flags + ["-w", "-I", os.path.join(REPO, "include"), "-I",
           os.path.join(HERE, "harness"), src] + extra + ["-o", tmp] + mode.get("libs", []) + job.get("libs", [])
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0:
        return None, " ".join(cmd) + "\n" + p.stderr[-4000:]
    os.rename(tmp, exe)
    return exe, None


class Shard:
    def __init__(self, job, exe, lo, hi, seed, thorough, scratch, n):
        self.job, self.exe, self.lo, self.hi = job, exe, lo, hi
        self.seed, self.thorough = seed, thorough
        self.out = os.path.join(scratch, f"out-{n}.json")
        self.prog = os.path.join(scratch, f"prog-{n}")
        self.err = os.path.join(scratch, f"err-{n}")
        self.scratch = scratch
        self.noleak = False


def spawn(shard, lo, hi, stall):
    """runs [lo,hi) and returns (status, detail, last_case): ok / crash / stall"""
    mode = MODES[shard.job["mode"]]
    env = dict(os.environ)
    env.update(mode.get("env", {}))
    env.update(shard.job.get("env", {}))
    env["OMP_NUM_THREADS"] = env.get("OMP_NUM_THREADS", str(shard.job.get("omp", 1)))
    env["VF_SCRATCH"] = shard.scratch
    if shard.noleak:
        env["ASAN_OPTIONS"] = env.get("ASAN_OPTIONS", "") + ":detect_leaks=0"
    cmd = mode.get("wrap", []) + [shard.exe, "--seed", str(shard.seed), "--from", str(lo), "--to", str(hi), "--out",
                                  shard.out, "--progress", shard.prog]
    if shard.job.get("part"):
        cmd += ["--part", shard.job["part"]]
    if shard.thorough:
        cmd += ["--thorough"]
    if shard.job.get("memory_only"):
        cmd += ["--memory-only"]
    for p in (shard.out, shard.prog):
        if os.path.exists(p):
            os.remove(p)

    limit_as = mode.get("limit_as", 0)

    def pre():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if limit_as:
            resource.setrlimit(resource.RLIMIT_AS, (limit_as, limit_as))

    with open(shard.err, "wb") as eh:
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=eh, env=env, preexec_fn=pre, cwd=shard.scratch)
        last, t_last = None, time.time()
        while True:
            try:
                p.wait(timeout=0.25)
                break
            except subprocess.TimeoutExpired:
                pass
            cur = read_prog(shard.prog)
            if cur != last:
                last, t_last = cur, time.time()
            elif time.time() - t_last > stall:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                return "stall", f"no progress for {stall}s", read_prog(shard.prog)
    rc = p.returncode
    if rc == 0 and os.path.exists(shard.out):
        return "ok", "", None
    err = open(shard.err, "rb").read().decode("utf8", "replace")
    return "crash", f"exit status {rc}\n{condense(err)}", read_prog(shard.prog)


def condense(err):
    lines = [l for l in err.splitlines() if l.strip()]
    keep = []
    for l in lines:
        if re.search(r"ERROR: |fatal error|runtime error|WARNING: ThreadSanitizer|SUMMARY|Assertion|terminate|what\(\)|"
                     r"^\s*#\d+ .*(ffcl|/repo/)|Invalid (read|write)|uninitialised|definitely lost|at 0x.*ffcl|by 0x.*ffcl", l):
            keep.append(l.strip()[:300])
    return "\n".join((keep or lines)[:40])


def read_prog(path):
    try:
        return int(open(path).read().split()[0])
    except Exception:
        return None


def classify_crash(detail):
    m = re.search(r"SUMMARY: (\w+Sanitizer): ([\w\- ]+)", detail)
    if m:
        return f"{m.group(1)}:{m.group(2).strip().split(' ')[0]}"
    if "runtime error" in detail:
        return "UndefinedBehaviorSanitizer"
    if "ThreadSanitizer" in detail:
        return "ThreadSanitizer"
    if "Assertion" in detail:
        return "assertion"
    m = re.search(r"exit status (-?\d+)", detail)
    return f"crash:{m.group(1)}" if m else "crash"


def run_shard(shard, res, lock, stop):
    lo = shard.lo
    stall = shard.job.get("stall", 90)
    while lo < shard.hi and not stop.is_set():
        st, detail, case = spawn(shard, lo, shard.hi, stall)
        if st == "ok":
            data = json.load(open(shard.out))
            with lock:
                res["evaluations"] += data["evaluations"]
                for k, v in data["counters"].items():
                    res["counters"][k] = res["counters"].get(k, 0) + v
                res["hashes"].update(data["hashes"])
                if len(res["samples"]) < 4:
                    res["samples"] += data["samples"][:1]
                for f in data["failures"]:
                    res["failures"].append(dict(f, job=shard.job["name"], seed=shard.seed))
                if len(res["failures"]) > 40:
                    stop.set()
            return
        if st == "crash":
            if case is None:
                with lock:
                    res["errors"].append(f"{shard.job['name']}: harness did not start: {detail}")
                return
            if "LeakSanitizer has encountered a fatal error" in detail:
                # leaks cannot be looked for here (traced or restricted process): everything else still is
                shard.noleak = True
                continue
            fl = {"case": case, "key": classify_crash(detail), "msg": detail, "job": shard.job["name"], "seed": shard.seed}
            if "LeakSanitizer" in fl["key"] or "detected memory leaks" in detail:
                fl["range"] = [lo, shard.hi]  # leaks show at the end of the process only
            with lock:
                res["failures"].append(fl)
                n_cr = sum(1 for f in res["failures"] if f["job"] == shard.job["name"])
                if n_cr > 6:
                    stop.set()
            # what was run before the crash is lost with the process: account for the cases reached
            with lock:
                res["evaluations"] += max(0, case - lo) + 1
            lo = case + 1
            continue
        # stalled: the watchdog alone decides nothing, run the case again on its own
        st2, detail2, _ = spawn(shard, case, case + 1, stall * 2)
        if st2 == "stall":
            with lock:
                res["failures"].append({"case": case, "key": "hang", "msg": f"no end after {stall}s and again after {stall*2}s alone",
                                        "job": shard.job["name"], "seed": shard.seed})
            stop.set()
            return
        if st2 == "crash":
            with lock:
                res["failures"].append({"case": case, "key": classify_crash(detail2), "msg": detail2,
                                        "job": shard.job["name"], "seed": shard.seed})
        else:
            with lock:
                res["inconclusive"].append(f"{shard.job['name']} case {case}: stalled once, finished when run alone")
        lo = case + 1


def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def matches(f, k):
    if k.get("job") and k["job"] != f["job"]:
        return False
    return k["key"] == f["key"] and re.search(k.get("match", ""), f["msg"]) is not None


def run_property(pid, tier, seed):
    t0 = time.time()
    spec = CHECKS[pid]
    thorough = tier == "thorough"
    digest = tree_digest()
    scratch = os.path.join(BUILD, f"run-{pid}-{os.getpid()}")
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    res = {"evaluations": 0, "counters": {}, "hashes": set(), "samples": [], "failures": [], "errors": [],
           "inconclusive": []}
    lock, stop = threading.Lock(), threading.Event()
    jobs = []
    for i, j in enumerate(spec["jobs"]):
        j = dict(j)
        j.setdefault("mode", "plain")
        j.setdefault("name", f"{os.path.splitext(j['src'])[0]}:{j['mode']}" + (f":{j['part']}" if j.get("part") else ""))
        if thorough and j.get("thorough", 1) == 0 or (not thorough and j.get("quick", 1) == 0):
            continue
        jobs.append(j)
    try:
        with ThreadPoolExecutor(JOBS) as ex:
            built = list(ex.map(lambda j: compile_job(j, digest), jobs))
        for j, (exe, err) in zip(jobs, built):
            if exe is None:
                log(f"ERROR: harness {j['name']} does not build against {REPO}:\n{err}")
                return 2
        t_build = time.time() - t0
        shards = []
        for j, (exe, _) in zip(jobs, built):
            n = j["thorough"] if thorough else j["quick"]
            nsh = min(j.get("shards", JOBS), max(1, n))
            base = j.get("base", 0)
            cuts = [base + n * k // nsh for k in range(nsh + 1)]
            for k in range(nsh):
                if cuts[k] < cuts[k + 1]:
                    shards.append(Shard(j, exe, cuts[k], cuts[k + 1], seed, thorough, scratch, len(shards)))
        workers = max(1, JOBS // max(1, spec.get("cores_per_shard", 1)))
        with ThreadPoolExecutor(workers) as ex:
            list(ex.map(lambda s: run_shard(s, res, lock, stop), shards))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    if res["errors"]:
        log("ERROR: " + "\n".join(res["errors"]))
        return 2

    known = [k for k in known_findings() if k["property"] == pid]
    fresh, seen_known = [], {}
    for f in res["failures"]:
        for k in known:
            if matches(f, k):
                seen_known[k["what"]] = seen_known.get(k["what"], 0) + 1
                break
        else:
            fresh.append(f)
    # too little observed is no verdict
    for name, floor in spec.get("floors", {}).items():
        if not fresh and res["counters"].get(name, 0) < floor:
            log(f"ERROR: inconclusive, monitors observed only {res['counters'].get(name, 0)} '{name}' (need {floor})")
            return 2
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": res["evaluations"], "distinct_nontrivial": len(res["hashes"]), "rule": spec["rule"],
            "samples": [s[:1500] for s in res["samples"][:4]],
            "observed": res["counters"],
            "workloads": [{"name": j["name"], "cases": j["thorough"] if thorough else j["quick"], "mode": j["mode"]} for j in jobs],
            "inconclusive": res["inconclusive"],
            "known_findings_seen": seen_known,
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(fresh),
    }
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, f"{pid}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for what in [k["what"] for k in known]:
        # the finding is listed: say so, whether or not this run's sample met it
        log(f"KNOWN-FINDING: property={pid} {what}")
    log(f"{pid} {tier} seed={seed}: {res['evaluations']} executions, {len(res['hashes'])} distinct non-trivial, "
        f"observed {json.dumps(res['counters'])}, build {t_build:.0f}s, total {time.time()-t0:.0f}s")
    if not fresh:
        return 0
    rdir = os.path.join(EVID, "replay")
    os.makedirs(rdir, exist_ok=True)
    done = set()
    for f in sorted(fresh, key=lambda x: (x["job"], x["case"])):
        if f["key"] in done:
            continue
        done.add(f["key"])
        path = os.path.join(rdir, f"{pid}-{re.sub(r'[^A-Za-z0-9]+', '_', f['job'])}-{f['seed']}-{f['case']}.json")
        with open(path, "w") as fh:
            json.dump(dict(f, property=pid, tier=tier, how=f"python3 {HERE}/run.py --replay {path}"), fh, indent=1)
        log(f"  [{f['key']}] {f['job']} case {f['case']}: {f['msg'][:1500]}")
        log(f"VIOLATION property={pid} replay={path}")
    return 1


def replay(path):
    f = json.load(open(path))
    pid = f["property"]
    for j in CHECKS[pid]["jobs"]:
        j = dict(j)
        j.setdefault("mode", "plain")
        j.setdefault("name", f"{os.path.splitext(j['src'])[0]}:{j['mode']}" + (f":{j['part']}" if j.get("part") else ""))
        if j["name"] != f["job"]:
            continue
        exe, err = compile_job(j, tree_digest())
        if exe is None:
            log("ERROR: " + err)
            return 2
        scratch = os.path.join(BUILD, f"replay-{os.getpid()}")
        os.makedirs(scratch, exist_ok=True)
        try:
            lo, hi = f.get("range", [f["case"], f["case"] + 1])
            sh = Shard(j, exe, lo, hi, f["seed"], f["tier"] == "thorough", scratch, 0)
            st, detail, _ = spawn(sh, lo, hi, 300)
            if st != "ok":
                log(f"{st}: {detail}")
                log(f"VIOLATION property={pid} replay={path}")
                return 1
            data = json.load(open(sh.out))
            for x in data["failures"]:
                log(f"[{x['key']}] {x['msg']}")
            if data["failures"]:
                log(f"VIOLATION property={pid} replay={path}")
                return 1
            log("the case passes now")
            return 0
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    return 2


def setup():
    """nothing to fetch or install: makes sure that the compilers the checks call are there"""
    for cxx in sorted({m["cxx"] for m in MODES.values()}):
        if shutil.which(cxx) is None:
            log(f"ERROR: {cxx} is missing")
            return 2
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    return 0


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        return replay(a[1])
    if a and a[0] == "--setup":
        return setup()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(a) > 1:
        tier = a[1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    return run_property(a[0], tier, seed)


if __name__ == "__main__":
    sys.exit(main())
