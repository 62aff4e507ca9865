#!/usr/bin/env python3
"""selftest.py [RUNS] [SEEDBASE]   determinism of the simulator itself: the same seeds run in one process, spread over
eight processes, again from a zygote with another environment size, and one by one must give the same event-log hash."""
import os, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.dirname(HERE))
import check

n = int(sys.argv[1]) if len(sys.argv) > 1 else 300
base = sys.argv[2] if len(sys.argv) > 2 else "99"
exe = check.build()


def table(d):
    t = {}
    for f in os.listdir(d):
        if f.startswith("hash."):
            for l in open(os.path.join(d, f)):
                w = l.split()
                t[w[0]] = tuple(w[1:3])
    return t


bad = 0
for prop in ["C%02d" % i for i in range(1, 20) if i != 17]:
    res = []
    for mode in range(3):
        with tempfile.TemporaryDirectory(prefix="lpsim-self-") as d:
            env = dict(os.environ)
            if mode == 2:
                env["LPSIM_PADDING"] = "x" * 3001
            k = 8 if mode == 1 else 1
            ps = [subprocess.Popen([exe, "batch", prop, base, str(i), str(n), "0", d, "w%d" % i, "5", "600", str(k)], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL) for i in range(k)]
            for p in ps:
                p.wait()
            res.append(table(d))
    diff = [s for s in res[0] if any(r.get(s) != res[0][s] for r in res[1:])]
    single = 0
    for s in list(res[0])[::max(1, n // 10)]:
        r = subprocess.run([exe, "seed", prop, s, "0", "-q"], stdout=subprocess.PIPE, text=True).stdout
        if "hash " + res[0][s][0].zfill(16) not in r:
            diff.append(s); single += 1
    print("%s: %d seeds, %d with differing hashes %s" % (prop, len(res[0]), len(diff), diff[:5]), flush=True)
    bad += bool(diff) or len(res[0]) != n
sys.exit(1 if bad else 0)
