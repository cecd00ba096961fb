#!/usr/bin/env python3
# Checks the tools the framework needs and that the tree builds; every check rebuilds what it needs anyway.
import os, sys, subprocess
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."); sys.path.insert(0, H)
for t in ("g++", "ld", "objcopy", "nm", "addr2line"):
    subprocess.run([t, "--version"], check=True, stdout=subprocess.DEVNULL)
import simbuild, propconf
os.makedirs(os.path.join(H, "evidence"), exist_ok=True)
simbuild.build(sorted(propconf.CONF)[0])
print("setup ok")
