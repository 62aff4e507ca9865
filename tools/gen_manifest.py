#!/usr/bin/env python3
import json
T = "deterministic simulation with fault injection: seeded schedules at memory-access granularity, seeded allocation failures and memory contents, "
O = {
 "C01": "judged by a reference optimum (interval dynamic programme) on every best partition",
 "C02": "judged by a reference optimum (tree dynamic programme) on every best partition",
 "C03": "judged by a reference optimum (node x interval dynamic programme) on every best partition",
 "C04": "judged entry by entry against the definition in long double",
 "C05": "judged by list invariants, re-computation at each listed parameter and the reference optimum between them",
 "C06": "state of every touched object compared before/after each refused call, retry compared with the failure-free run",
 "C07": "bitwise comparison with the same calls run alone, plus happens-before race detection in the simulator",
 "C08": "bitwise comparison of three worlds differing in heap/stack contents and placement, plus block-ownership checks on every access",
 "C09": "judged part by part against sums and means of the covered cells",
 "C10": "bitwise comparison of every answer with a fresh object built from the current inputs (sequential reference)",
 "C11": "judged against the last completed sweep's own lists",
 "C12": "step bound on every sweep, measured in scheduling points (bounded liveness once faults stop)",
 "C13": "conservation of blocks over the whole history, run twice",
 "C14": "judged against the last written values and an independent description of the tree",
 "C15": "every call on registers of single qualities and tradeoffs judged as a step from the observed state before it, all other registers unchanged, by callers sharing operands, under failed allocations, with happens-before race detection",
 "C18": "judged against an independent reading of the cut lists and set comparison of the parts, by callers sharing the partitions, with happens-before race detection",
 "C19": "every table read back cell by cell against a shadow after every call, every other table unchanged, by callers sharing tables, under failed allocations, with block-ownership checks and happens-before race detection",
 "C16": "sessions of the front end's own C++ over a stand-in for Rcpp, judged against the library's answer, in three worlds with different memory contents",
}
N = {
 "C07": "Seeded search over interleavings of 2-4 callers; sampled, not exhaustive. Races inside libstdc++.so code are seen only through the inlined parts. Sequentially consistent memory; weaker orders are covered only by the race check.",
 "C12": "Bounded liveness: the bound is a constant times listed parameters times halvings times the measured cost of one search on the same partitioner; slow-downs below that factor are not seen.",
 "C08": "Heap accesses are checked against block ownership; stack and static accesses only through differing results. Uninitialised reads are seen when they change a result or a control path between the worlds.",
}
checks = []
for i in [x for x in range(1, 20) if x != 17]:
    p = "C%02d" % i
    checks.append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": T + O[p], "level": "exploration",
                   "level_note": N.get(p, "Seeded sampling of data, histories, schedules and allocation failures on the real library code; a clean batch is evidence, not proof. Trusts the simulator's executor and the reference model in sim/data.h; numerical comparisons allow 4e-13 relative rounding.")})
m = {"version": 1, "setup_cmd": "python3 check.py --build",
     "hooks": {"guard": "none (the seams are link-level: operator new/delete, compiler access callbacks, pthread wrappers)", "enable": "sim/build.sh compiles /repo's unmodified sources with -fsanitize=thread -fsanitize-coverage=trace-pc and links the simulator's own callbacks", "source_commits": []},
     "checks": checks,
     "not_applicable": [
        {"property": "C17", "reason": "Interpreted R code (sqldf, dplyr, reshape2): no R interpreter is installed and it is a pure conversion with no schedule, clock, I/O fault or history to simulate."}],
     "notes": "Run from /verif. check.py --replay FILE re-executes a replay file. DESIGN.md describes the simulator, oracles, false alarms corrected and which planted bugs each check catches."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
