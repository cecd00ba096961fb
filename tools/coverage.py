#!/usr/bin/env python3
"""coverage.py [runs] [props...]: which blocks of the library the property programs execute.
Builds instrumented copies under /tmp/spmp-cov; prints the source lines no property reaches."""
import os, sys, subprocess, collections, shutil, re
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
os.environ["SPMP_SIM_COV"] = "1"; os.environ["SPMP_SIM_BUILD"] = B = "/tmp/spmp-cov"
sys.path.insert(0, H); import simbuild
from concurrent.futures import ThreadPoolExecutor
runs = sys.argv[1] if len(sys.argv) > 1 else "5000"
props = sys.argv[2:] or ["C%02d" % i for i in range(1, 21)]
hit, allb = collections.defaultdict(set), set()
def one(p):
    e = simbuild.build(p, ("ndebug",))["ndebug"]; o = "%s/%s.pcs" % (B, p)
    subprocess.run([e, "--seed", "3", "--count", runs, "--time", "120", "--out", "%s/%s" % (B, p)], env=dict(os.environ, SPMP_SIM_COV_OUT=o), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    pcs = {int(l, 16) for l in open(o)}
    d = subprocess.run(["objdump", "-d", "--no-show-raw-insn", e], capture_output=True, text=True).stdout
    a, nxt = set(), False
    for l in d.splitlines():
        m = re.match(r"\s+([0-9a-f]+):\s+(.*)", l)
        if not m: nxt = False; continue
        if nxt: a.add(int(m.group(1), 16))
        nxt = "call" in m.group(2) and "__sanitizer_cov_trace_pc" in m.group(2)
    a = sorted(a | pcs)
    r = subprocess.run(["addr2line", "-e", e], input="\n".join("%x" % (x - 1) for x in a), capture_output=True, text=True).stdout.splitlines()
    return p, {(l.split(" ")[0], x in pcs) for l, x in zip(r, a)}
one(props[0])
seen, reached = set(), set()
with ThreadPoolExecutor(int(os.environ.get("W", "4"))) as ex:
    for p, s in ex.map(one, props):
        for l, h in s:
            if not l.startswith(simbuild.REPO): continue
            seen.add(l)
            if h: reached.add(l); hit[l].add(p)
by = collections.defaultdict(lambda: [0, 0])
for l in seen: by[l.rsplit(":", 1)[0]][0] += 1; by[l.rsplit(":", 1)[0]][1] += l in reached
for f in sorted(by): print("%-60s %4d of %4d block lines reached" % (f, by[f][1], by[f][0]))
print("not reached:")
for l in sorted(seen - reached, key=lambda s: (s.rsplit(":", 1)[0], int(s.rsplit(":", 1)[1]) if s.rsplit(":", 1)[1].isdigit() else 0)):
    f, n = l.rsplit(":", 1)
    try: t = open(f).read().splitlines()[int(n) - 1].strip()
    except Exception: t = ""
    print("%s | %s" % (l, t[:120]))
shutil.rmtree(B, ignore_errors=True)
