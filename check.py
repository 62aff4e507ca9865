#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--runs N]   decide one property by simulation
   check.py --replay FILE [-v]                                        run a replay file against /repo's tree
   check.py --build                                                   only build the simulator
Exit 0: held on everything explored.  1: VIOLATION line printed.  Anything else: the check itself failed."""
import argparse, fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("LPSIM_REPO", "/repo")
WORK = 8
# simulated runs per tier: sized for about a minute (quick) and ten minutes (thorough) of 8 cores
RUNS = {"C01": (50000, 480000), "C02": (59000, 560000), "C03": (18000, 170000), "C04": (70000, 660000), "C05": (18000, 170000),
        "C06": (73000, 690000), "C07": (31000, 290000), "C08": (81000, 770000), "C09": (38000, 360000), "C10": (28000, 270000),
        "C11": (64000, 610000), "C12": (13000, 130000), "C13": (48000, 450000), "C14": (101000, 960000), "C15": (170000, 1600000), "C16": (12000, 115000), "C18": (28000, 270000), "C19": (45000, 430000)}
CAP = {"quick": 240, "thorough": 660}      # seconds of exploration at most
PROBES = {0: "best partition with several composite parts", 1: "best partition is the whole", 2: "normalized table judged", 3: "table normalized twice", 4: "caller-supplied table judged",
          5: "zero gain or loss of the whole at normalization", 6: "aggregation with several parts", 7: "sweep listing more than 3 parameters", 8: "neighbouring parameters closer than the threshold",
          9: "sweep over a single parameter", 10: "threshold zero or negative", 11: "query before any completed sweep", 12: "query over more than 2 listed parameters", 13: "two tradeoffs of equal value compared", 14: "equal partitions listing their parts in different orders compared", 15: "equal partitions for different parameters compared", 16: "different partitions with as many parts compared", 17: "reference history in a process of its own: the disturbed one meets the library at first use", 18: "table with cells sharing an object next to cells that do not", 19: "table larger than 255", 20: "call returned although an allocation was refused inside", 21: "history repeated on one thread that lives on"}
PROBE_OF = {"C01": [0, 1, 2], "C02": [0, 1, 2], "C03": [0, 1, 2], "C04": [2, 3, 4, 5], "C05": [7, 8, 9, 10, 17], "C06": [17], "C07": [17], "C08": [17], "C09": [6], "C10": [6], "C11": [11, 12], "C12": [10], "C13": [21], "C15": [13], "C16": [7], "C18": [14, 15, 16], "C19": [18, 19]}
KINDS = ["none", "single", "burst", "sticky (memory stays full)", "large requests only", "random rate"]
FILLS = ["stale bytes", "random", "zero", "0xff", "pointer-like"]
LAYS = ["LIFO reuse", "FIFO reuse", "never reused", "random reuse and gaps"]
STRATS = ["sequential", "round robin at operation boundaries", "random preemption", "PCT priorities", "replay"]
RULES = {
 "default": "one evaluation = one simulated run: a generated history of library calls by 1-8 callers over generated data, in one or more simulated worlds, with a seeded schedule and seeded allocation failures; non-trivial = at least one oracle comparison in the run was on a non-degenerate result; distinct = by the hash of the run's complete event log (every switch, refused allocation, call outcome and result)",
}
ASSUME = ["library sources compiled with g++ -O1 and access instrumentation behave like the shipped build (no optimiser-dependent behaviour)",
          "code inside libstdc++.so/libm is not instrumented: it runs atomically and its accesses are not checked",
          "memory is sequentially consistent in the simulation; unordered accesses are reported as races instead (C07)",
          "double-precision rounding of the library stays within 4e-13 relative of the terms summed",
          "normalization is exercised on data whose whole-set gain and loss are exactly zero or above rounding noise"]


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def die(msg):
    print("CHECK ERROR: " + msg, flush=True)
    sys.exit(2)


def tree_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "src", "lpaggreg"), os.path.join(HERE, "sim"), os.path.join(REPO, "R")]
    for r in roots:
        for d, ds, fs in os.walk(r):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                if os.path.splitext(f)[1] in (".cpp", ".h", ".hpp", ".cc", ".c", ".hh", ".sh", ".inc", ".ipp", ".tpp", ".R", ".py") and os.path.isfile(p):
                    h.update(os.path.relpath(p, r).encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()[:20]


def build():
    key = tree_hash()
    base = os.path.join(HERE, "build")
    out = os.path.join(base, key)
    exe = os.path.join(out, "lpsim")
    os.makedirs(base, exist_ok=True)
    with open(os.path.join(base, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(exe):
            for d in sorted(os.listdir(base)):                       # keep the cache small
                p = os.path.join(base, d)
                if os.path.isdir(p) and time.time() - os.path.getmtime(p) > 6 * 3600:
                    shutil.rmtree(p, ignore_errors=True)
            r = sh(["bash", os.path.join(HERE, "sim", "build.sh"), out, REPO])
            if r.returncode or not os.path.exists(exe):
                die("the simulator does not build from %s:\n%s" % (REPO, r.stdout[-3000:]))
    return exe


# ---------------------------------------------------------------- plans as text
def run_plan(exe, path, extra=()):
    r = sh([exe, "replay", path] + list(extra), timeout=300)
    m = re.search(r"^result (\S+) hash (\S+) .* class (\S+)$", r.stdout, re.M)
    if not m:
        return ("error", "", "-", r.stdout)
    d = re.search(r"^detail (.*)$", r.stdout, re.M)
    return (m.group(1), m.group(2), m.group(3), d.group(1) if d else "")


class Mini:
    def __init__(self, exe, lines, cls, path, secs):
        self.exe, self.cls, self.path, self.end = exe, cls, path, time.time() + secs
        self.best, self.tried = lines, 0

    def ok(self, lines):
        if time.time() > self.end:
            return False
        self.tried += 1
        with open(self.path, "w") as f:
            f.write("\n".join(lines) + "\n")
        try:
            r = run_plan(self.exe, self.path)
        except subprocess.TimeoutExpired:
            return False
        return r[0] == "VIOLATION" and r[2] == self.cls

    def drop(self, pred):
        """ddmin over the lines selected by pred"""
        idx = [i for i, l in enumerate(self.best) if pred(l)]
        n = 2
        while idx and time.time() < self.end:
            step = max(1, len(idx) // n)
            hit = False
            for k in range(0, len(idx), step):
                gone = set(idx[k:k + step])
                cand = self.clean([l for i, l in enumerate(self.best) if i not in gone])
                if self.ok(cand):
                    self.best = cand
                    idx = [i for i, l in enumerate(self.best) if pred(l)]
                    n = max(n - 1, 2)
                    hit = True
                    break
            if not hit:
                if step == 1:
                    break
                n = min(len(idx), n * 2)

    @staticmethod
    def clean(lines):
        ops = {l.split()[2] for l in lines if l.startswith("op ")}
        res = []
        for l in lines:
            w = l.split()
            if l.startswith("fault ") and w[1] not in ops:
                continue
            if l.startswith("switch ") and w[1] != "-77" and int(w[2]) > 0 and int(w[2]) < (1 << 20) and str(int(w[2]) // 16) not in ops:
                continue
            res.append(l)
        return res

    def simplify_data(self):
        for i, l in enumerate(list(self.best)):
            if not l.startswith("data "):
                continue
            w = l.split()
            v = w.index("values")
            vals = w[v + 2:]
            for mode in range(3):
                if mode == 0:
                    nv = [repr(float(round(float.fromhex(x) if "x" in x else float(x)))) for x in vals]
                elif mode == 1:
                    nv = [x if float(x) == 0 else "1" for x in nv]
                else:
                    break
                nv = [x[:-2] if x.endswith(".0") else x for x in nv]
                cand = list(self.best)
                cand[i] = " ".join(w[:v + 2] + nv)
                if self.ok(cand):
                    self.best = cand
            # blank single values
            w = self.best[i].split()
            k = 0
            while k < min(len(vals), 40) and time.time() < self.end:
                if w[v + 2 + k] != "0":
                    c = list(w)
                    c[v + 2 + k] = "0"
                    cand = list(self.best)
                    cand[i] = " ".join(c)
                    if self.ok(cand):
                        self.best = cand
                        w = c
                k += 1

    def run(self):
        self.drop(lambda l: l.startswith("op "))
        self.drop(lambda l: l.startswith("fault "))
        self.drop(lambda l: l.startswith("switch "))
        self.drop(lambda l: l.startswith("op "))
        used = set()
        for l in self.best:
            w = [x for x in l.split() if x != "noread"]
            if w[0] == "op" and w[3] in ("newv", "newqx"):
                used.add(w[6])
        cand = [l for l in self.best if not l.startswith("data ") or l.split()[1] in used]
        if len(cand) < len(self.best) and self.ok(cand):
            self.best = cand
        for w in ("world 1", "world 2", "world 3"):                 # plainest memory that still fails
            for i, l in enumerate(self.best):
                if l.startswith(w + " "):
                    cand = list(self.best)
                    cand[i] = w + " 1 2 0"
                    if cand[i] != l and self.ok(cand):
                        self.best = cand
        self.simplify_data()
        return self.best


def findings():
    """known findings: 'finding: property=C00 class=CLS detail~REGEX  description'; 'fixed:' lines suppress nothing"""
    res = []
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) class=(\S+) detail~/(.*?)/\s+(.*)$", l)
            if m:
                res.append(m.groups())
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int, default=WORK)
    ap.add_argument("--replay")
    ap.add_argument("--build", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    exe = build()
    if a.build:
        return 0
    if a.replay:
        r = sh([exe, "replay", a.replay] + (["-v"] if a.v else []))
        sys.stdout.write(r.stdout)
        p = re.search(r"^prop (\S+)", open(a.replay).read(), re.M)
        if "result VIOLATION" in r.stdout:
            print("VIOLATION property=%s replay=%s" % (p.group(1), os.path.abspath(a.replay)))
            return 1
        return 0 if "result ok" in r.stdout or "result inconclusive" in r.stdout else 2
    prop, tier = a.prop, a.tier if a.tier in ("quick", "thorough") else "quick"
    if prop not in RUNS:
        die("unknown property %s" % prop)
    if prop == "C16" and not os.path.exists(os.path.join(os.path.dirname(exe), "rfront.o")):
        die("the R front end's C++ part does not build:\n" + open(os.path.join(os.path.dirname(exe), "rfront.log")).read()[-2000:])
    ti = 1 if tier == "thorough" else 0
    n = a.runs or RUNS[prop][ti]
    print("check %s tier %s seed %d: %d simulated runs" % (prop, tier, a.seed, n), flush=True)
    scratch = os.path.join(HERE, "build", "run.%s.%d" % (prop, os.getpid()))
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    try:
        return explore(exe, prop, tier, ti, a, n, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def explore(exe, prop, tier, ti, a, n, scratch, t0):
    ps = []
    te = time.time()
    cpus = sorted(os.sched_getaffinity(0))

    def pin(w):                                                       # one worker per core: the baton passes between threads of one core
        def f():
            try:
                os.sched_setaffinity(0, {cpus[w % len(cpus)]})
            except OSError:
                pass
        return f
    early = "0" if any(f[0] == prop for f in findings()) else "1"           # stop all workers soon after a violation, unless known findings would do that
    for w in range(a.workers):
        ps.append(subprocess.Popen([exe, "batch", prop, str(a.seed), str(w), str(n), str(ti), scratch, str(w), "4", str(CAP[tier]), str(a.workers), early], preexec_fn=pin(w), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
    outs = [p.communicate()[0] for p in ps]
    explore_s = time.time() - te
    for p, o in zip(ps, outs):
        if p.returncode:
            die("batch worker ended with %d: %s" % (p.returncode, o[-800:]))
    S = [json.load(open(os.path.join(scratch, "stats.%d" % w))) for w in range(a.workers)]
    tot = lambda k: sum(s[k] for s in S)
    vec = lambda k: [sum(s[k][i] for s in S) for i in range(len(S[0][k]))]
    vio = sorted((v for s in S for v in s["vio"]), key=lambda v: os.path.getsize(v["plan"]))
    nv = tot("violations")
    reported, known, unstable = None, [], []
    if vio:
        fnd = [f for f in findings() if f[0] == prop]
        fresh = []
        for v in vio:
            f = [f for f in fnd if f[1] == v["class"] and re.search(f[2], v["detail"])]
            (known if f else fresh).append((f[0][3], v) if f else v)
        for d in sorted({d for d, _ in known}):
            print("KNOWN-FINDING: property=%s %s" % (prop, d))
        for v in fresh:                                               # gate: same seed twice, then the replay file twice, in fresh processes
            why = gate(exe, prop, ti, v)
            if why:
                unstable.append((v, why))
                continue
            reported = report(exe, prop, v, tier)
            break
        if fresh and not reported:
            v, why = unstable[0]
            print("unreproducible: seed %s class %s: %s (%s)" % (v["seed"], v["class"], v["detail"], why))
    inter, states, edges, pre = set(), set(), set(), set()
    for s in S:
        inter.update(s["ileave"]); states.update(s["states"]); edges.update(s["edges"]); pre.update(s["preempt_pcs"])
    pr = vec("probes")
    runs = tot("runs")
    ev = {
        "property": prop, "tier": tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": runs, "distinct_nontrivial": len(states), "rule": RULES.get(prop, RULES["default"]),
            "samples": [x for s in S for x in s["samples"]][:4],
            "nontrivial_runs": tot("nontrivial"), "oracle_comparisons": tot("evals"),
            "seeds_per_hour": int(runs / max(explore_s, 0.01) * 3600), "runs_planned": n, "workers": a.workers,
            "simulated_time": {"unit": "scheduling points (instrumented memory accesses, basic blocks, allocations) of library code; the library has no clock", "steps": tot("steps"), "log_events": tot("events")},
            "calls": {"issued": tot("ops"), "returned": tot("ok"), "failed_with_bad_alloc": tot("failed"), "retried_to_success": tot("retried"), "skipped_missing_input": tot("skipped")},
            "faults_allocation_failure": {"armed_by_kind": dict(zip(KINDS[1:], vec("armed")[1:])), "refused_allocations_by_kind": dict(zip(KINDS[1:], vec("fired")[1:]))},
            "faults_memory_contents_worlds": dict(zip(FILLS, vec("fills"))), "faults_memory_placement_worlds": dict(zip(LAYS, vec("layouts"))),
            "faults_stalled_callers_inside_a_call": tot("stalls"),
            "schedule": {"switches": tot("switches"), "preemptions_inside_calls": tot("preempts_in_call"), "blocked_or_finished": tot("forced"), "strategy_runs": dict(zip(STRATS, vec("strategies"))), "runs_by_number_of_callers": dict(zip(["0", "1", "2", "3", "4"], vec("clients"))), "runs_with_truncated_schedule_record": tot("truncated")},
            "distinct_interleavings": len(inter), "interleaving_measure": "hash of the sequence of (caller, call, step, next caller) switches, over multi-caller non-trivial runs",
            "distinct_preemption_sites": len(pre), "library_basic_blocks_reached": len(edges),
            "inconclusive_runs": tot("inconclusive"), "inconclusive_meaning": "a call outside this property's statement crashed, hung or threw; judged by the property that speaks about it",
            "probes_runs": {PROBES[i]: pr[i] for i in PROBE_OF.get(prop, []) + [20]},
            "allocations": tot("allocs"), "atomic_operations": tot("atomics"),
            "real_code": "every class of src/lpaggreg (values, qualities, partitioners, partitions, aggregations, metadata, containers), compiled from /repo's working tree; libstdc++ headers inlined into it" + ("; the C++ source inside R/lpaggreg.R, extracted as R's sourceCpp would" if prop == "C16" else ""),
            "stubbed": ("Rcpp, Armadillo and R's object heap (sim/rstub); " if prop == "C16" else "") + "global operator new/delete, the thread scheduler, pthread mutexes/once and static-initialisation guards (simulator); callers (generated histories); data sources (generated)",
        },
        "assumptions": ASSUME, "wall_s": round(time.time() - t0, 2), "violations": nv,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", ".%s.%d" % (prop, os.getpid()))
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", prop + ".json"))
    for i in PROBE_OF.get(prop, []):
        if not nv and runs >= 4000 and pr[i] == 0:
            print("note: probe '%s' was never reached" % PROBES[i])
    print("%d runs (%d distinct non-trivial, %d interleavings, %d refused allocations) in %.1f s, %d violating" % (runs, len(states), len(inter), sum(vec("fired")), explore_s, nv), flush=True)
    if reported:
        print("VIOLATION property=%s replay=%s" % (prop, reported), flush=True)
        return 1
    if not vio and tot("inconclusive") * 2 > runs:
        die("most runs ended outside this property's statement (%d of %d): nothing can be said about it" % (tot("inconclusive"), runs))
    if vio and len(known) < len(vio):
        die("violations were seen but none reproduced; not reported as a violation")
    return 0


def gate(exe, prop, ti, v):
    rs = []
    for _ in range(2):
        r = sh([exe, "seed", prop, str(v["seed"]), str(ti)], timeout=600)
        m = re.search(r"^result (\S+) hash (\S+) .* class (\S+)$", r.stdout, re.M)
        rs.append(m.groups() if m else ("error", r.stdout[-200:], ""))
    if rs[0] != rs[1] or rs[0][0] != "VIOLATION" or rs[0][2] != v["class"]:
        return "same seed: %s / %s" % (rs[0], rs[1])
    for kind in ("explicit", "seeded"):
        if kind == "seeded":                                          # schedule record truncated: replay by seed instead
            r = sh([exe, "gen", prop, str(v["seed"]), str(ti)])
            v["plan"] += ".seeded"
            open(v["plan"], "w").write(r.stdout)
        x, y = run_plan(exe, v["plan"]), run_plan(exe, v["plan"])
        if x == y and x[0] == "VIOLATION" and x[2] == v["class"]:
            return None
    return "replay: %s / %s" % (x[:3], y[:3])


def report(exe, prop, v, tier):
    rd = os.path.join(HERE, "replay")
    os.makedirs(rd, exist_ok=True)
    path = os.path.join(rd, "%s-%s-%s.plan" % (prop, v["class"].replace(":", "_").lower(), v["seed"]))
    lines = [l for l in open(v["plan"]).read().split("\n") if l]
    m = Mini(exe, lines, v["class"], path + ".try", 45 if tier == "quick" else 120)
    best = m.run()
    head = ["# property %s, found with simulation seed %s" % (prop, v["seed"]), "# class %s: %s" % (v["class"], v["detail"].replace("\n", " "))]
    with open(path, "w") as f:
        f.write("\n".join(head + best) + "\n")
    x, y = run_plan(exe, path), run_plan(exe, path)
    if x != y or x[0] != "VIOLATION":                                 # never report a minimised file that does not replay
        with open(path, "w") as f:
            f.write("\n".join(head + lines) + "\n")
        x = run_plan(exe, path)
    try:
        os.unlink(path + ".try")
    except OSError:
        pass
    c = lambda p, ls: sum(1 for l in ls if l.startswith(p + " "))
    print("violation class %s, seed %s" % (v["class"], v["seed"]))
    print("  " + x[3])
    print("  minimised: %d -> %d calls, %d -> %d faults, %d -> %d switches (%d replays); event hash %s" % (c("op", lines), c("op", best), c("fault", lines), c("fault", best), c("switch", lines), c("switch", best), m.tried, x[1]))
    print("  replay with: python3 %s --replay %s -v" % (os.path.join(HERE, "check.py"), path))
    return path


if __name__ == "__main__":
    try:
        sys.exit(main())
    except subprocess.TimeoutExpired as e:
        die("a replay took too long: %s" % e)
