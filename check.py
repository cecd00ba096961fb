#!/usr/bin/env python3
"""check.py <property> <quick|thorough>     decide one property by simulation
   check.py replay <file>                   replay a reported violation
   check.py determinism <property> [runs]   same seeds, different worker layouts, compare event-log hashes

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken.
Exit 2/3: the check itself failed (build error, a violation that does not replay)."""
import json, os, shutil, struct, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import simbuild
from propconf import CONF, COMMON

NW = int(os.environ.get("SPMP_SIM_WORKERS", "8"))
LEVEL = "exploration"
STRATS = ["random", "round-robin", "pct", "conflict-directed", "near-serial"]

def die(code, msg):
    print("CHECK-ERROR: " + msg); sys.stdout.flush(); sys.exit(code)

def known(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property=%s " % prop):
                rest = l[len("known: property=%s " % prop):]
                sig, _, text = rest.partition(" :: ")
                out.append((sig.strip(), text.strip()))
    return out

def parse_variants(prop):
    return CONF[prop].get("variants", ("ndebug", "assert"))

def write_replay(path, prop, variant, r, extra=()):
    with open(path, "w") as f:
        f.write("property %s\nvariant %s\nclass %s\nmessage %s\ncase %s\nthreads %d\nrun_seed %d\ntrace_hash %s\n" % (
            prop, variant, r["class"], r["message"].replace("\n", " "), r["note"].replace("\n", " "), r["threads"], r["run_seed"], r["trace_hash"]))
        for e in extra: f.write("info %s\n" % e)
        f.write("choices %d %s\n" % (len(r["choices"]), " ".join(map(str, r["choices"]))))
        f.write("schedule %d %s\n" % (len(r["schedule"]), " ".join("%d %d %d" % tuple(s) for s in r["schedule"])))

def exe_replay(exe, path, shrink=0, timeout=120):
    cmd = [exe, "--replay", path] + (["--shrink", "--time", str(shrink)] if shrink else [])
    try: p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired: return None
    try: return json.loads(p.stdout.decode("utf-8", "replace").strip().splitlines()[-1], strict=False)
    except Exception: return None

def symbols(exe, addrs):
    if not addrs: return []
    try:
        o = subprocess.run(["addr2line", "-Cfse", exe] + addrs[:20], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=60).stdout.splitlines()
        fr = []
        for i in range(0, len(o) - 1, 2):
            if "sim.cpp" in o[i + 1] or o[i] == "??": continue
            fr.append("%s (%s)" % (o[i].split("(")[0], o[i + 1]))
        return fr
    except Exception: return []

def read_set(path):
    if not os.path.exists(path): return set()
    b = open(path, "rb").read(); return set(struct.unpack("<%dQ" % (len(b) // 8), b))

def main():
    prop, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if prop not in CONF: die(2, "unknown property " + prop)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    conf = dict(COMMON); conf.update(CONF[prop])
    t0 = time.time()
    variants = parse_variants(prop)
    try: exes = simbuild.build(prop, variants)
    except simbuild.BuildError as e: die(2, "build failed: " + str(e))
    t_build = time.time() - t0
    count = conf["quick_runs"] if tier == "quick" else 10 ** 12
    tlimit = conf["quick_time"] if tier == "quick" else float(os.environ.get("SPMP_SIM_THOROUGH_S", conf["thorough_time"]))
    tmp = tempfile.mkdtemp(prefix="spmpsim-%s-" % prop)
    try:
        rc = explore(prop, tier, seed, conf, variants, exes, count, tlimit, tmp, t0, t_build)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)

def explore(prop, tier, seed, conf, variants, exes, count, tlimit, tmp, t0, t_build):
    kn = known(prop)
    kf = os.path.join(tmp, "known"); open(kf, "w").write("".join(s + "\n" for s, _ in kn))
    workers = []
    per = max(1, count // NW)
    for i in range(NW):
        v = variants[i % len(variants)]
        out = os.path.join(tmp, "w%d" % i)
        cmd = [exes[v], "--seed", str(seed), "--start", str(i), "--stride", str(NW), "--count", str(per), "--time", str(tlimit), "--out", out, "--known", kf]
        workers.append((v, out, cmd, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(out + ".err", "w"))))
    # a violation anywhere ends the search
    deadline = time.time() + tlimit + 90
    viol = None
    while True:
        alive = [w for w in workers if w[3].poll() is None]
        viol = next((w for w in workers if w[3].poll() == 1 and os.path.exists(w[1] + ".viol")), None)
        if viol or not alive: break
        if time.time() > deadline: break
        time.sleep(0.05)
    for w in workers:
        if w[3].poll() is None: w[3].kill(); w[3].wait()
    if not viol:
        for v, out, cmd, p in workers:
            if p.returncode not in (0, 1):
                die(3, "worker ended with %s: %s %s" % (p.returncode, " ".join(cmd), open(out + ".err").read()[-500:]))
    st = aggregate(workers)
    nviol = 0
    if viol: nviol = 1
    det = None
    if not viol:
        det = self_check(prop, seed, variants, exes, tmp, min(conf["selfcheck"], per))
        if det is None: die(3, "the same seeds gave different event logs: the simulation is not deterministic")
    write_evidence(prop, tier, seed, conf, st, t0, t_build, nviol, det, kn, variants)
    for s, text in kn:
        print("KNOWN-FINDING: property=%s %s (reproduced in %d runs)" % (prop, text, st["known"].get(s, 0)))
    if viol: return report(prop, viol, exes, seed)
    print("%s %s: held on %d runs (%d distinct non-trivial), %d simulated steps, %.1f s" % (prop, tier, st["evaluations"], st["distinct"], st["steps"], time.time() - t0))
    return 0

def self_check(prop, seed, variants, exes, tmp, n):
    total = 0
    for v in variants:
        exe = exes[v]
        a = os.path.join(tmp, "da"); subprocess.run([exe, "--seed", str(seed), "--count", str(n), "--hashes", "--out", a], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        hs = {}
        k = 3
        ps = [subprocess.Popen([exe, "--seed", str(seed), "--start", str(i), "--stride", str(k), "--count", str((n - i + k - 1) // k), "--hashes", "--out", os.path.join(tmp, "db%d" % i)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL) for i in range(k)]
        for p in ps: p.wait()
        for i in range(k):
            for l in open(os.path.join(tmp, "db%d.hashes" % i)): x, y = l.split(); hs[x] = y
        ref = dict(l.split() for l in open(a + ".hashes"))
        both = set(ref) & set(hs)
        if any(ref[x] != hs[x] for x in both): return None
        total += len(both)
    return total

def aggregate(workers):
    st = dict(runs=0, evaluations=0, steps=0, parallel_steps=0, max_steps=0, switches=0, preemptions=0, runs_with_faults=0, faults={}, probes={}, discards={}, known={}, strategies=[0] * 5, threads=[0] * 65, samples=[], wall=0, rule="")
    sets = {k: set() for k in ("distinct", "cov", "pairs", "scheds")}
    for v, out, cmd, p in workers:
        if not os.path.exists(out + ".json"): continue
        try: j = json.load(open(out + ".json"), strict=False)
        except Exception: continue
        for k in ("runs", "evaluations", "steps", "parallel_steps", "switches", "preemptions", "runs_with_faults"): st[k] += j[k]
        st["max_steps"] = max(st["max_steps"], j["max_steps"]); st["wall"] = max(st["wall"], j["wall"]); st["rule"] = j["rule"]
        for k in ("faults", "probes", "discards", "known"):
            for a, b in j[k].items(): st[k][a] = st[k].get(a, 0) + b
        for i, x in enumerate(j["strategies"]): st["strategies"][i] += x
        for i, x in enumerate(j["threads"]): st["threads"][i] += x
        if len(st["samples"]) < 6: st["samples"] += j["samples"][:2]
        for k in sets: sets[k] |= read_set(out + "." + k)
    for k in sets: st[k] = len(sets[k])
    return st

def write_evidence(prop, tier, seed, conf, st, t0, t_build, nviol, det, kn, variants):
    w = max(st["wall"], 1e-6)
    cov = {
        "evaluations": st["evaluations"], "distinct_nontrivial": st["distinct"],
        "rule": st["rule"] + " Distinct = different hash of (choice stream, context-switch trace); non-trivial = at least one preemption or scheduling deviation, or at least one injected fault that fired.",
        "samples": st["samples"] or ["(no run with a preemption or fault in this batch)"],
        "runs": st["runs"], "discarded": st["discards"],
        "seeds": "run seeds derived from VERIF_SEED=%d and run indices 0..%d" % (seed, max(0, st["runs"] - 1)),
        "runs_per_hour": int(st["runs"] / w * 3600),
        "simulated_steps": st["steps"], "simulated_parallel_steps": st["parallel_steps"], "longest_run_steps": st["max_steps"],
        "simulated_time_s": round(st["steps"] * 1e-8, 3), "simulated_time_note": "one simulated step = 10 ns of the simulated clock",
        "context_switches": st["switches"], "preemptions": st["preemptions"],
        "distinct_interleavings": st["scheds"], "distinct_interleavings_measure": "hash of the sequence of (thread, thread-local step, next thread) context switches of a run",
        "distinct_preemption_sites": st["pairs"], "distinct_states": st["cov"], "distinct_states_measure": conf.get("state_measure", "property-specific hash of the reached configuration"),
        "faults_injected": st["faults"], "runs_with_faults": st["runs_with_faults"],
        "probes": st["probes"],
        "strategies": {n: st["strategies"][i] for i, n in enumerate(STRATS)},
        "threads_histogram": {str(i): n for i, n in enumerate(st["threads"]) if n},
        "builds": list(variants),
        "components_real": conf["real"], "components_simulated": conf["simulated"],
        "determinism_runs_compared": det if det is not None else 0,
        "known_findings_hit": st["known"], "build_s": round(t_build, 1),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": LEVEL, "coverage": cov,
          "assumptions": conf["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": nviol}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    p = os.path.join(HERE, "evidence", prop + ".json")
    json.dump(ev, open(p + ".tmp", "w"), indent=1); os.rename(p + ".tmp", p)

def report(prop, viol, exes, seed):
    v, out, cmd, p = viol
    r = json.loads(open(out + ".viol").read().splitlines()[0], strict=False)
    exe = exes[v]
    d = os.path.join(HERE, "replays"); os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-seed%d-run%d.replay" % (prop, seed, r["run"]))
    orig = path + ".full"
    write_replay(orig, prop, v, r)
    a = exe_replay(exe, orig)
    if not a or not a["failed"] or a["class"] != r["class"]:
        print(json.dumps(r)[:3000]); die(3, "the violation found in run %d did not replay" % r["run"])
    m = exe_replay(exe, orig, shrink=15, timeout=200)
    best = a
    if m and m["failed"] and m["class"] == r["class"]: best = m
    for _ in range(2):
        write_replay(path, prop, v, best)
        x = exe_replay(exe, path); y = exe_replay(exe, path)
        if x and y and x["failed"] and x["class"] == r["class"] and x["trace_hash"] == y["trace_hash"] and x["class"] == y["class"]: break
        if best is a: die(3, "the violation found in run %d does not replay the same way twice" % r["run"])
        best = a
    bt = symbols(exe, x["backtrace"])
    x["run_seed"] = r["run_seed"]
    write_replay(path, prop, v, x, ["found in run %d of VERIF_SEED=%d, build %s" % (r["run"], seed, v), "minimised from %d choices, %d scheduling decisions" % (len(r["choices"]), len(r["schedule"]))] + ["at " + b for b in bt])
    os.unlink(orig)
    print("property %s violated: %s: %s" % (prop, x["class"], x["message"]))
    print("  case: %s | threads %d | build %s | run %d, seed %d" % (x["note"], x["threads"], v, r["run"], seed))
    print("  minimised to %d choices and %d scheduling decisions (from %d and %d)" % (len(x["choices"]), len(x["schedule"]), len(r["choices"]), len(r["schedule"])))
    for b in bt[:8]: print("    at " + b)
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1

def replay(path):
    kv = {}
    for l in open(path):
        k, _, rest = l.strip().partition(" ")
        kv.setdefault(k, rest)
    prop, v = kv["property"], kv["variant"]
    try: exes = simbuild.build(prop, (v,))
    except simbuild.BuildError as e: die(2, str(e))
    r = exe_replay(exes[v], path)
    if not r: die(3, "replay gave no result")
    print(json.dumps({k: r[k] for k in ("property", "failed", "class", "message", "note", "threads", "trace_hash", "steps")}, indent=1))
    for b in symbols(exes[v], r["backtrace"]): print("  at " + b)
    if r["failed"]:
        print("VIOLATION property=%s replay=%s" % (prop, os.path.abspath(path))); return 1
    return 0

def determinism(prop, n):
    exes = simbuild.build(prop, parse_variants(prop))
    tmp = tempfile.mkdtemp(prefix="spmpdet-")
    try: d = self_check(prop, int(os.environ.get("VERIF_SEED", "1")), parse_variants(prop), exes, tmp, n)
    finally: shutil.rmtree(tmp, ignore_errors=True)
    print("%s: %s" % (prop, "NOT deterministic" if d is None else "%d runs identical under another worker layout" % d)); return 0 if d is not None else 3

if __name__ == "__main__":
    if len(sys.argv) > 2 and sys.argv[1] == "replay": sys.exit(replay(sys.argv[2]))
    if len(sys.argv) > 2 and sys.argv[1] == "determinism": sys.exit(determinism(sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 2000))
    main()
