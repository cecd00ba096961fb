#!/usr/bin/env python3
# Rewrites the "fixed:" lines of known_findings.txt from /repo's fix commits (property of each commit below).
import subprocess, os
PROP = [("level search overflows", "C01"), ("fused schedule", "C04"), ("reduction barrier", "C06"), ("single-core reduction", "C06"), ("parallel union", "C11"), ("self-check of connected", "C11"),
 ("connected components leaks", "C19"), ("path splicing", "C11"), ("RCM work arrays", "C10"), ("breadth-first search of a 1x1", "C10"), ("pseudo-diameter", "C10"), ("bipartite BFS", "C12"),
 ("transpose of", "C07"), ("in-place matrix-vector", "C08"), ("strided multi-vector", "C08"), ("multi-vector product of a pattern", "C08"), ("permuting a pattern", "C09"), ("permuteColsInPlace", "C09"),
 ("permuteRows", "C09"), ("self-check of permuteRowptr", "C09"), ("symmetrising", "C13"), ("index-base conversion", "C14"), ("copying a matrix loses", "C14"), ("isSymmetric ignores", "C14"), ("hasZeroDiag", "C14"), ("comparing pattern", "C14")]
EXTRA = os.path.join(os.path.dirname(os.path.abspath(__file__)), "fixprops.txt")   # "<commit subject prefix>\t<property>"
if os.path.exists(EXTRA): PROP += [tuple(l.rstrip("\n").split("\t")) for l in open(EXTRA) if "\t" in l]
f = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.txt")
keep = [l for l in open(f) if not l.startswith("fixed:")] if os.path.exists(f) else []
out = []
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "): continue
    s = s[5:]; ps = [p for k, p in PROP if s.startswith(k)]
    if len(ps) != 1: raise SystemExit("no single property for: " + s)
    out.append("fixed: property=%s %s %s\n" % (ps[0], h, s))
open(f, "w").write("".join(keep + out)); print(len(out))
