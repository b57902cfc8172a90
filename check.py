#!/usr/bin/env python3
"""Driver of the deterministic-simulation checks.

  check.py setup            build every harness binary
  check.py <ID> [TIER]      decide one property (VERIF_SEED, VERIF_TIER unless given)
  check.py replay <FILE>    rebuild and re-execute a replay file
  check.py list             properties and their scenarios

Every scenario is one (harness binary, workload) pair. A scenario is executed by pinned worker
processes; a worker executes simulated runs one after another, one seed each.
"""
import json, os, re, struct, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "sim"))
from scenarios import SCENARIOS, FINDINGS  # noqa: E402

TARGET = os.path.join(ROOT, "target")
BIN = os.path.join(TARGET, "debug")
HARNESS = os.path.join(ROOT, "sim", "harness")
NCPU = max(1, min(8, len(os.sched_getaffinity(0))))
CPUS = sorted(os.sched_getaffinity(0))


def log(*a):
    print(*a, flush=True)


def die(msg):
    log("ERROR: " + msg)
    sys.exit(2)


def cargo_env():
    e = dict(os.environ)
    # the toolchain settings of the sandbox, if it has them
    p = "/opt/vp/env.sh"
    if os.path.exists(p):
        out = subprocess.run(["bash", "-c", ". %s >/dev/null 2>&1; env -0" % p], capture_output=True, cwd="/").stdout
        for kv in out.split(b"\0"):
            if b"=" in kv:
                k, v = kv.decode("utf8", "replace").split("=", 1)
                if k not in ("PWD", "OLDPWD", "SHLVL", "_"):
                    e[k] = v
    e.update(CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", RUSTFLAGS="-Awarnings")
    e.pop("RUSTC_WRAPPER", None)
    return e


def build(bins):
    t = time.time()
    cmd = ["cargo", "build", "--offline", "--locked"]
    for b in sorted(bins):
        cmd += ["--bin", b]
    r = subprocess.run(cmd, cwd=HARNESS, env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        log(r.stdout[-6000:])
        die("the harness does not build against /repo")
    return time.time() - t


class Worker:
    def __init__(self, scen, start, stride, count, budget_ms, cpu, tag):
        self.scen, self.start, self.stride = scen, start, stride
        d = os.path.join(TARGET, "work-%d" % os.getpid())
        os.makedirs(d, exist_ok=True)
        self.hf = os.path.join(d, "h-%s" % tag)
        self.pf = os.path.join(d, "p-%s" % tag)
        for f in (self.hf, self.pf):
            if os.path.exists(f):
                os.unlink(f)
        b, p = scen
        cmd = [os.path.join(BIN, b), "batch", "--prop", p, "--start", str(start), "--stride", str(stride),
               "--count", str(count), "--budget-ms", str(budget_ms), "--hashes", self.hf, "--progress", self.pf]
        if cpu is not None:
            cmd += ["--cpu", str(cpu)]
        self.budget = budget_ms / 1000
        self.p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=run_env())

    def finish(self):
        """(summary or None, violations, died seed or None)"""
        try:
            out, _ = self.p.communicate(timeout=self.budget + 120)
            rc = self.p.returncode
        except subprocess.TimeoutExpired:
            self.p.kill()
            out, _ = self.p.communicate()
            rc = -999
        vs, end = [], None
        for l in out.decode("utf8", "replace").splitlines():
            if l.startswith("V "):
                vs.append(json.loads(l[2:]))
            elif l.startswith("E "):
                end = json.loads(l[2:])
        died = None
        if end is None:
            if rc in (2, 9):
                die("worker of %s failed: %s" % (self.scen, out[:300]))
            seed = None
            try:
                seed = struct.unpack("<Q", open(self.pf, "rb").read(8))[0]
            except Exception:
                pass
            died = (seed, rc)
        return end, vs, died

    def hashes(self):
        try:
            return open(self.hf, "rb").read()
        except OSError:
            return b""


def run_env():
    # Workers must not depend on the caller's environment.
    return {"PATH": "/usr/bin:/bin", "HOME": "/nonexistent", "LANG": "C", "TMPDIR": "/tmp"}


def one(scen, seed, timeout=180):
    """Executes one seed in a fresh process; the full result, or a stand-in when the process dies."""
    return exec_one([os.path.join(BIN, scen[0]), "seed", "--prop", scen[1], "--seed", str(seed)], seed, timeout)


def exec_one(cmd, seed, timeout=180):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=run_env(), timeout=timeout)
        rc, out = r.returncode, r.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        rc, out = -999, ""
    for l in out.splitlines():
        if l.startswith("{"):
            return json.loads(l)
    return {"seed": seed, "class": "process-death", "msg": "the process died (status %d)" % rc, "rec": None, "hash": "", "notes": [], "events": [], "faults": {}, "aborted": True, "steps": 0, "sim_ns": 0}


def replay_text(scen, seed, rec, head=()):
    o = ["# " + h for h in head]
    o += ["bin " + scen[0], "prop " + scen[1], "seed %d" % seed]
    if rec is None:
        o.append("by-seed")
    else:
        for s in range(3):
            for i, v in rec[s]:
                o.append("d %d %d %d" % (s, i, v))
    return "\n".join(o) + "\n"


def exec_replay(scen, seed, rec, path):
    if rec is None:
        return one(scen, seed)
    with open(path, "w") as f:
        f.write(replay_text(scen, seed, rec))
    return exec_one([os.path.join(BIN, scen[0]), "replay", "--prop", scen[1], "--file", path], seed, 120)


def minimise(scen, res, limit_s):
    """Delta debugging over the recorded non-default choices (schedule, workload/fault plan, environment)."""
    t0 = time.time()
    seed, cls = res["seed"], res["class"]
    cur = [(s, i, v) for s in range(3) for i, v in res["rec"][s]]
    d = os.path.join(TARGET, "work-%d" % os.getpid())
    tried = [0]

    def to_rec(l):
        r = [[], [], []]
        for s, i, v in l:
            r[s].append([i, v])
        return r

    def test(k, l):
        tried[0] += 1
        x = exec_replay(scen, seed, to_rec(l), os.path.join(d, "min-%d" % k))
        return x if x["class"] == cls and x.get("rec") is not None else None

    best = test(0, cur)
    if best is None:
        return None
    slow = best["class"] in ("stuck",)
    if slow:
        return best, tried[0]
    with ThreadPoolExecutor(NCPU) as ex:
        n = 2
        while len(cur) >= 1 and time.time() - t0 < limit_s:
            n = min(n, len(cur))
            size = -(-len(cur) // n)
            parts = [cur[k:k + size] for k in range(0, len(cur), size)]
            cands = [[x for j, p in enumerate(parts) if j != k for x in p] for k in range(len(parts))]
            hit = None
            for base in range(0, len(cands), NCPU):
                if time.time() - t0 > limit_s:
                    break
                rs = list(ex.map(lambda kc: test(kc[0], kc[1]), list(enumerate(cands[base:base + NCPU]))))
                for c, x in zip(cands[base:], rs):
                    if x is not None:
                        hit = (c, x)
                        break
                if hit:
                    break
            if hit:
                # keep only what the run still consumed
                best = hit[1]
                cur = [(s, i, v) for s in range(3) for i, v in best["rec"][s]]
                n = max(n - 1, 2)
            elif n >= len(cur):
                break
            else:
                n = min(len(cur), n * 2)
        # smaller values
        k = 0
        while k < len(cur) and time.time() - t0 < limit_s:
            s, i, v = cur[k]
            vals = sorted({1, v // 2}) if v > 1 else []
            for w in [w for w in vals if 0 < w < v]:
                c = cur[:k] + [(s, i, w)] + cur[k + 1:]
                x = test(0, c)
                if x is not None:
                    best = x
                    cur = [(s, i, v) for s in range(3) for i, v in best["rec"][s]]
                    break
            k += 1
    return best, tried[0]


def history(scen, start, stride, count):
    """Executes `count` seeds one after another in one fresh process; the result of the last one."""
    seed = start + stride * (count - 1)
    pf = os.path.join(TARGET, "work-%d" % os.getpid(), "hist")
    os.makedirs(os.path.dirname(pf), exist_ok=True)
    cmd = [os.path.join(BIN, scen[0]), "batch", "--prop", scen[1], "--start", str(start), "--stride", str(stride),
           "--count", str(count), "--budget-ms", "150000", "--progress", pf, "--last-full"]
    none = {"seed": seed, "class": "", "msg": "", "rec": None, "hash": "", "notes": [], "faults": {}, "steps": 0, "sim_ns": 0}
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=run_env(), timeout=200)
        rc, out = r.returncode, r.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        rc, out = -999, ""
    last = None
    for l in out.splitlines():
        if l.startswith("V "):
            last = json.loads(l[2:])
        elif l.startswith("E "):
            return last if last and last["seed"] == seed else none
    try:
        at = struct.unpack("<Q", open(pf, "rb").read(8))[0]
    except Exception:
        at = None
    if at == seed:
        return dict(none, **{"class": "process-death", "msg": "the process died (status %d)" % rc})
    return none


def report_history(pid, scen, v, limit_s):
    """A violation that needs what earlier runs of the same process left behind (process-wide state
    of the library): the replay is the shortest found run of consecutive seeds that ends in it."""
    start, stride, seed = v["start"], v["stride"], v["seed"]
    total = (seed - start) // stride + 1
    t0 = time.time()

    def test(n):
        x = history(scen, seed - stride * (n - 1), stride, n)
        return x if x["class"] == v["class"] else None

    best, n, lo = None, 2, 1
    while n < total and time.time() - t0 < limit_s:
        best = test(n)
        if best:
            break
        lo = n
        n *= 2
    if best is None:
        n = total
        best = test(n)
        if best is None:
            return None
    while n - lo > 1 and time.time() - t0 < limit_s:
        m = (lo + n) // 2
        x = test(m)
        if x:
            best, n = x, m
        else:
            lo = m
    same = all(a and a["hash"] == best["hash"] for a in [test(n), test(n)])
    path = os.path.join(ROOT, "replays", "%s-%s-%s-%d.replay" % (pid, scen[0], scen[1], seed))
    head = [
        "property %s, scenario %s/%s, seed %d as the last of %d seeds run in one process" % (pid, scen[0], scen[1], seed, n),
        "the seed alone does not fail: the failure needs process-wide state left by the runs before it",
        "violation [%s]: %s" % (best["class"], best["msg"].replace("\n", " / ")),
        "run hash %s, %d scheduling steps, %d ns of simulated time, faults %s" % (best["hash"], best["steps"], best["sim_ns"], json.dumps(best["faults"])),
        "replayed twice in fresh processes: %s" % ("identical" if same else "NOT IDENTICAL"),
        "re-execute: python3 check.py replay <this file>",
    ] + ["| " + x.replace("\n", " / ") for x in best["notes"]]
    with open(path, "w") as f:
        f.write("\n".join(["# " + h for h in head] + ["bin " + scen[0], "prop " + scen[1], "history %d %d %d" % (seed - stride * (n - 1), stride, n)]) + "\n")
    log("  scenario %s/%s, last of %d seeds up to %d: [%s] %s" % (scen[0], scen[1], n, seed, best["class"], best["msg"].replace("\n", " / ")))
    for x in best["notes"][-40:]:
        log("    " + x)
    return path


def report(pid, scen, v, limit_s):
    """Confirms, minimises and files one violation. Returns the replay path."""
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    res = one(scen, v["seed"])
    if not res["class"]:
        res = one(scen, v["seed"])
    if not res["class"]:
        return report_history(pid, scen, v, limit_s) if "start" in v else None
    orig = sum(len(x) for x in res["rec"]) if res["rec"] else None
    tried = 0
    if res["rec"] is not None and res["class"] != "process-death":
        m = minimise(scen, res, limit_s)
        if m:
            res, tried = m
    d = os.path.join(TARGET, "work-%d" % os.getpid())
    again = [exec_replay(scen, res["seed"], res["rec"], os.path.join(d, "again")) for _ in range(2)]
    same = all(a["class"] == res["class"] and a["hash"] == res["hash"] for a in again)
    path = os.path.join(ROOT, "replays", "%s-%s-%s-%d.replay" % (pid, scen[0], scen[1], res["seed"]))
    head = [
        "property %s, scenario %s/%s, seed %d" % (pid, scen[0], scen[1], res["seed"]),
        "violation [%s]: %s" % (res["class"], res["msg"].replace("\n", " / ")),
        "run hash %s, %d scheduling steps, %d ns of simulated time, faults %s" % (res["hash"], res["steps"], res["sim_ns"], json.dumps(res["faults"])),
        "non-default choices: %s recorded, %s after minimisation (%d candidate replays)" % (orig, sum(len(x) for x in res["rec"]) if res["rec"] else None, tried),
        "replayed twice in fresh processes: %s" % ("identical" if same else "NOT IDENTICAL"),
        "re-execute: python3 check.py replay <this file>",
    ] + ["| " + n.replace("\n", " / ") for n in res["notes"]]
    with open(path, "w") as f:
        f.write(replay_text(scen, res["seed"], res["rec"], head))
    log("  scenario %s/%s seed %d: [%s] %s" % (scen[0], scen[1], res["seed"], res["class"], res["msg"].replace("\n", " / ")))
    for n in res["notes"][-40:]:
        log("    " + n)
    return path


def determinism(scens, base):
    """The same seeds in three processes: other CPU, other environment size, no pinning."""
    n, bad = 0, []
    count = 24
    jobs = []
    for k, s in enumerate(scens):
        ws = [Worker(s, base + 777, 13, count, 60000, CPUS[(k + j) % NCPU] if j < 2 else None, "det%d-%d" % (k, j)) for j in range(3)]
        jobs.append((s, ws))
        if len(jobs) * 3 >= NCPU or k == len(scens) - 1:
            for s, ws in jobs:
                hs = set()
                for w in ws:
                    e, vs, died = w.finish()
                    hs.add((e or {}).get("all_hash", "died"))
                    n += (e or {}).get("runs", 0)
                if len(hs) > 1:
                    bad.append("%s/%s" % s)
            jobs = []
    return n, bad


def check(pid, tier=None):
    t0 = time.time()
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        vseed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        vseed = 1
    log("property %s tier %s VERIF_SEED %d" % (pid, tier, vseed))
    scens = SCENARIOS[pid]
    total = float(os.environ.get("VERIF_BUDGET_S", "24" if tier == "quick" else "600"))
    finds = [f for f in FINDINGS if f["property"] == pid]
    bins = {s[0] for s in scens} | {f["scenario"][0] for f in finds}
    build_s = build(bins)
    log("built %s in %.1f s" % (", ".join(sorted(bins)), build_s))
    base = (vseed * 0x9E3779B1 + int(pid[1:]) * 1_000_003) & 0xFFFFFFFF
    base <<= 24
    ev = {"property": pid, "tier": tier, "seed": vseed, "level": "exploration"}
    out = {"evaluations": 0, "scenarios": [], "faults_injected": {}, "probes": {}}
    wsum = sum(s[2] for s in scens)
    nontriv, distinct = set(), set()
    found = []
    steps = switches = sim_ns = checked = faulty = 0
    explore_t = time.time()
    samples = []
    for (b, p, w) in scens:
        scen = (b, p)
        budget = total * w / wsum
        st = {"scenario": "%s/%s" % scen, "runs": 0, "steps": 0, "simulated_s": 0.0, "longest_run_steps": 0, "longest_wait_for_progress_steps": 0}
        sd, sn = set(), set()
        done, rnd = 0.0, 0
        while done < budget - 0.2:
            # bounded chunks: a worker process never lives long
            chunk = min(60.0, budget - done)
            start = base + rnd * 50_000_000
            ws = [Worker(scen, start + i, NCPU, 10**9, int(chunk * 1000), CPUS[i], "%d" % i) for i in range(NCPU)]
            rnd += 1
            done += chunk
            stop = False
            for wk in ws:
                e, vs, died = wk.finish()
                if e:
                    out["evaluations"] += e["runs"]
                    st["runs"] += e["runs"]
                    st["steps"] += e["steps"]
                    st["longest_run_steps"] = max(st["longest_run_steps"], e["max_steps"])
                    st["longest_wait_for_progress_steps"] = max(st["longest_wait_for_progress_steps"], e["max_gap"])
                    st["simulated_s"] += e["sim_ns"] / 1e9
                    steps += e["steps"]; switches += e["switches"]; sim_ns += e["sim_ns"]
                    checked += e["checked_runs"]; faulty += e["faulty_runs"]
                    for k, v in e["faults"].items():
                        out["faults_injected"][k] = out["faults_injected"].get(k, 0) + v
                    for k, v in e["probes"].items():
                        out["probes"][k] = out["probes"].get(k, 0) + v
                    hb = wk.hashes()
                    for o in range(0, len(hb) - 8, 9):
                        h = hb[o:o + 8]
                        sd.add(h)
                        if hb[o + 8]:
                            sn.add(h)
                for v in vs:
                    found.append((scen, dict(v, start=wk.start, stride=wk.stride)))
                if died:
                    found.append((scen, {"start": wk.start, "stride": wk.stride, "seed": died[0], "class": "process-death", "msg": "worker died with status %s" % died[1]}))
                stop = stop or vs or died
            if stop:
                break
        st["distinct_runs"] = len(sd)
        out["scenarios"].append(st)
        # one actual case per scenario
        if not found:
            x = one(scen, base + 5)
            if x.get("rec") is not None:
                samples.append({"scenario": "%s/%s" % scen, "seed": x["seed"], "run_hash": x["hash"], "scheduling_steps": x["steps"], "simulated_ns": x["sim_ns"], "faults": x["faults"], "trace": x["notes"][:14]})
        nontriv |= {scen_hash(scen, h) for h in sn}
        distinct |= {scen_hash(scen, h) for h in sd}
        log("  %-24s %8d runs, %8d distinct, %.0f s simulated" % (st["scenario"], st["runs"], len(sd), st["simulated_s"]))
        if found:
            break
    explore_s = time.time() - explore_t
    det_runs, det_bad = determinism([(b, p) for b, p, _ in scens], base) if not found else (0, [])
    known = []
    if not found:
        for f in finds:
            x = one(tuple(f["scenario"]), f.get("seed", 1))
            if x["class"] == f["class"] and re.search(f["match"], x["msg"]):
                log("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
                known.append(f["what"])
            elif x["class"]:
                found.append((tuple(f["scenario"]), x))
    rc = 0
    replay = None
    if found:
        # simplest-looking first; one per class is enough
        order = {}
        for scen, v in found:
            order.setdefault(v["class"], (scen, v))
        for cls, (scen, v) in list(order.items())[:2]:
            if v["seed"] is None:
                die("a worker died before its first run")
            path = report(pid, scen, v, 40 if tier == "quick" else 120)
            if path:
                replay = path
                log("VIOLATION property=%s replay=%s" % (pid, path))
                rc = 1
        if rc == 0:
            die("a violation was seen but did not reproduce: %s" % json.dumps([v for _, v in found])[:1500])
    hours = max(explore_s, 1e-9) / 3600
    out.update({
        "distinct_nontrivial": len(nontriv),
        "rule": "One case = one simulated run of the whole system under one seed: the seed draws the program and its path, the fault plan and every scheduling decision. A run is non-trivial if the oracle made at least one comparison and the scheduler switched threads at least twice; two runs are distinct if the hash of their full scheduling sequence and recorded history differs.",
        "samples": samples or [{"note": "stopped at the first violation", "replay": replay}],
        "distinct_runs": len(distinct),
        "runs_with_oracle_comparisons": checked,
        "runs_with_injected_faults": faulty,
        "runs_per_hour_one_seed_each": int(out["evaluations"] / hours),
        "scheduling_steps": steps,
        "thread_switches": switches,
        "simulated_seconds": sim_ns / 1e9,
        "workers": NCPU,
        "determinism_selfcheck": {"runs_executed_three_times_each_in_separate_processes": det_runs, "diverging_scenarios": det_bad},
        "real_components": "mpstthree and mpst_seq as they are in /repo, crossbeam-channel 0.5.17 (one hook line per operation), the Rust standard library (threads, mutexes, condvars, parking, time), glibc pthreads",
        "simulated_components": "thread scheduling, futexes, thread creation and joining, monotonic and real-time clocks, sleeping, yielding, random numbers" + {"C13": ", sockets", "C14": ", sockets", "C18": ", files, the nuscr process", "C19": ", files, the nuscr process"}.get(pid, ""),
        "build_seconds": round(build_s, 1),
        "known_findings_seen": known,
    })
    ev["coverage"] = out
    ev["assumptions"] = [
        "Threads are preempted only at channel operations, futex calls, thread creation/join/exit, clock reads, sleeps, yields and socket/file calls; code between two such points runs atomically (it shares no unsynchronised state there).",
        "Weak-memory effects inside crossbeam-channel and std are not explored.",
    ]
    ev["violations"] = len(found)
    ev["wall_s"] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    tmp = os.path.join(ROOT, "evidence", ".%s.tmp" % pid)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(ROOT, "evidence", pid + ".json"))
    cleanup()
    if det_bad and rc == 0:
        die("not deterministic: %s" % det_bad)
    if rc == 0:
        log("held on %d simulated runs (%d distinct), %.1f s" % (out["evaluations"], len(distinct), time.time() - t0))
    return rc


def scen_hash(scen, h):
    return (scen, h)


def cleanup():
    d = os.path.join(TARGET, "work-%d" % os.getpid())
    if os.path.isdir(d):
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)


def replay_cmd(path):
    scen, seed, by_seed, hist = [None, None], 0, False, None
    for l in open(path):
        w = l.split()
        if w[:1] == ["bin"]:
            scen[0] = w[1]
        elif w[:1] == ["prop"]:
            scen[1] = w[1]
        elif w[:1] == ["seed"]:
            seed = int(w[1])
        elif w[:1] == ["by-seed"]:
            by_seed = True
        elif w[:1] == ["history"]:
            hist = [int(x) for x in w[1:4]]
    build([scen[0]])
    if hist:
        x = history(scen, *hist)
    elif by_seed:
        x = one(scen, seed)
    else:
        x = exec_one([os.path.join(BIN, scen[0]), "replay", "--prop", scen[1], "--file", os.path.abspath(path)], seed)
    for n in x["notes"]:
        log(n)
    log("run hash %s" % x["hash"])
    if x["class"]:
        log("violation [%s]: %s" % (x["class"], x["msg"]))
        return 1
    log("no violation")
    return 0


def main():
    a = sys.argv[1:]
    if a[:1] == ["setup"]:
        bins = {s[0] for v in SCENARIOS.values() for s in v} | {f["scenario"][0] for f in FINDINGS}
        log("built in %.1f s" % build(bins))
        return 0
    if a[:1] == ["replay"]:
        return replay_cmd(a[1])
    if a[:1] == ["list"]:
        for k, v in SCENARIOS.items():
            log(k, v)
        return 0
    if len(a) in (1, 2) and a[0] in SCENARIOS:
        try:
            return check(*a)
        finally:
            cleanup()
    log(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
