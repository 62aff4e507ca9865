#!/usr/bin/env python3
"""unreached.py BUILD [RUNS]   library functions and basic blocks no simulated run reached (development aid)"""
import collections, json, os, re, subprocess, sys, tempfile
exe = os.path.join(sys.argv[1], "lpsim"); n = int(sys.argv[2]) if len(sys.argv) > 2 else 1500
d = tempfile.mkdtemp()
ps = [subprocess.Popen([exe, "batch", "C%02d" % p, "7", "0", str(n), "0", d, str(p), "4", "200"]) for p in list(range(1, 15)) + [16]]
for p in ps: p.wait()
hit = set()
for p in list(range(1, 15)) + [16]: hit.update(json.load(open("%s/stats.%d" % (d, p)))["edges"])
fn, sites = None, []
for l in subprocess.run(["objdump", "-d", "--no-show-raw-insn", exe], stdout=subprocess.PIPE, text=True).stdout.split("\n"):
    m = re.match(r"^([0-9a-f]+) <(.*)>:$", l)
    if m: fn = m.group(2); continue
    m = re.match(r"^\s*([0-9a-f]+):\s+call\s+[0-9a-f]+ <__sanitizer_cov_trace_pc>", l)
    if m: sites.append((fn, int(m.group(1), 16) + 5))
tot = collections.Counter(f for f, _ in sites); got = collections.Counter(f for f, a in sites if ((a >> 1) & 0xFFFF) in hit)
names = subprocess.run(["c++filt"], input="\n".join(tot), stdout=subprocess.PIPE, text=True).stdout.split("\n")
nm = dict(zip(tot, names))
print("%d of %d basic blocks reached" % (sum(got.values()), sum(tot.values())))
for f in sorted(tot, key=lambda f: nm[f]):
    if "lpaggreg" in nm[f] and got[f] < tot[f]: print("%4d/%-4d %s" % (got[f], tot[f], nm[f][:150]))
