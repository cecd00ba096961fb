#!/usr/bin/env python3
"""Litmus tests of the simulator's memory model (props/L00.cpp): forbidden outcomes never, store buffering only with store buffers."""
import json, os, subprocess, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import simbuild
exe = simbuild.build("L00", ["ndebug"])["ndebug"]
with tempfile.TemporaryDirectory() as t:
    rc = subprocess.call([exe, "--seed", "1", "--count", sys.argv[1] if len(sys.argv) > 1 else "400000", "--out", t + "/o"])
    d = json.load(open(t + "/o.json")); print(d["runs"], "runs", d["probes"])
    if rc: print(open(t + "/o.viol").read()[:600])
ok = rc == 0 and all(d["probes"].get(k, 0) > 0 for k in ("SB-relaxed", "SB-relaxed-plain", "MP-delivered"))
print("memory model:", "OK" if ok else "BROKEN"); sys.exit(0 if ok else 1)
