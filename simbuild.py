#!/usr/bin/env python3
"""Builds the simulated system from /repo's working tree plus one property program.

build(prop, variants) -> {variant: path of the executable}. Nothing is written to /repo.
Cached by content hash under /verif/build (git-ignored)."""
import glob, hashlib, os, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SPMP_REPO", "/repo")
OUT = os.environ.get("SPMP_SIM_BUILD", os.path.join(HERE, "build"))
CXX = os.environ.get("SPMP_SIM_CXX", "g++")
VARIANTS = {"ndebug": ["-DNDEBUG", "-O1"], "assert": ["-O1"]}
SUT_FLAGS = ["-std=c++11", "-fopenmp", "-g", "-w", "-fno-pie", "-fsanitize=thread", "--param", "tsan-distinguish-volatile=1",
             "--param", "tsan-instrument-func-entry-exit=0",
             "-fno-omit-frame-pointer", "-fstack-protector-strong", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-DSPMP_SIM",
             "-mmemcpy-strategy=libcall:-1:noalign", "-mmemset-strategy=libcall:-1:noalign", "-fno-builtin-printf", "-fno-builtin-fprintf", "-fno-builtin-puts",
             "-include", os.path.join(HERE, "sim", "force.h")]
if os.environ.get("SPMP_SIM_COV"): SUT_FLAGS.append("-fsanitize-coverage=trace-pc")  # tools/coverage.py
HAR_FLAGS = ["-std=c++17", "-O1", "-g", "-fno-pie", "-w", "-fno-omit-frame-pointer", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-fno-stack-protector"]

class BuildError(Exception): pass

def run(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout

def sut_sources():
    # what the repository's own Makefile puts into libspmp.a; loadimba.cpp is a
    # profiling add-on that redefines a barrier symbol and is left out
    s = sorted(glob.glob(REPO + "/*.cpp") + glob.glob(REPO + "/reordering/*.cpp") + glob.glob(REPO + "/synk/*.cpp"))
    return [p for p in s if os.path.basename(p) not in ("loadimba.cpp",)]

def redefs():
    # objcopy wants distinct targets: further names of one target get a suffix, tied together at link time
    seen, out = {}, []
    for l in open(os.path.join(HERE, "sim", "redefine.txt")):
        if not l.strip(): continue
        a, b = l.split(); n = seen[b] = seen.get(b, 0) + 1
        out.append((a, b if n == 1 else "%s__%d" % (b, n), b))
    return out

def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:16]

def headers(root):
    r = []
    for d, _, fs in os.walk(root):
        if "/.git" in d or "/_build" in d: continue
        r += [os.path.join(d, f) for f in fs if f.endswith((".hpp", ".h"))]
    return r

def build_sut(variant, pool):
    srcs = sut_sources()
    wls = [os.path.join(HERE, "sim", "wl.cpp"), os.path.join(HERE, "sim", "wl_prog.cpp")]
    wls = [w for w in wls if os.path.exists(w)]
    tests = [REPO + "/test/mtx2bin.cpp"]
    deps = srcs + wls + headers(REPO) + tests + [os.path.join(HERE, "sim", f) for f in ("force.h", "wl.h", "redefine.txt", "sut.ld")]
    d = os.path.join(OUT, "sut-%s-%s" % (variant, digest(deps, variant + CXX + " ".join(SUT_FLAGS) + REPO)))
    obj = os.path.join(d, "sut.o")
    if os.path.exists(obj): return obj
    tmp = d + ".tmp%d" % os.getpid(); os.makedirs(tmp, exist_ok=True)
    fl = SUT_FLAGS + VARIANTS[variant]
    def comp(s):
        o = os.path.join(tmp, s.replace("/", "_") + ".o")
        run([CXX, *fl, "-I", REPO, "-I", os.path.join(HERE, "sim"), "-c", s, "-o", o]); return o
    # biggest first
    allsrc = sorted(srcs + wls, key=lambda p: -os.path.getsize(p))
    objs = list(pool.map(comp, allsrc))
    rel = os.path.join(tmp, "rel.o")
    run(["ld", "-r", "--force-group-allocation", "-T", os.path.join(HERE, "sim", "sut.ld"), "-o", rel, *objs])
    nm = run(["nm", rel])
    weak = sorted({l.split()[-1] for l in nm.splitlines() if len(l.split()) == 3 and l.split()[1] in "WVu"})
    wf = os.path.join(tmp, "weak.txt"); open(wf, "w").write("\n".join(weak) + "\n")
    rf = os.path.join(tmp, "redef.txt")
    open(rf, "w").write("".join("%s %s\n" % (a, b) for a, b, _ in redefs()))
    run(["objcopy", "--redefine-syms", rf, "--localize-symbols", wf, rel, os.path.join(tmp, "sut.o")])
    for o in objs + [rel]: os.unlink(o)
    if os.path.exists(d): shutil.rmtree(tmp)
    else:
        try: os.rename(tmp, d)
        except OSError: pass
    return obj

def build_har(src, pool):
    deps = [src] + glob.glob(os.path.join(HERE, "sim", "*.h")) + glob.glob(os.path.join(HERE, "props", "*.h")) + headers(REPO)
    d = os.path.join(OUT, "har"); os.makedirs(d, exist_ok=True)
    o = os.path.join(d, os.path.basename(src) + "-" + digest(deps, " ".join(HAR_FLAGS) + CXX + REPO) + ".o")
    if not os.path.exists(o):
        t = o + ".tmp%d" % os.getpid()
        extra = ["-O2"] if src.endswith("sim.cpp") else []
        run([CXX, *HAR_FLAGS, *extra, "-I", REPO, "-I", os.path.join(HERE, "sim"), "-c", src, "-o", t]); os.rename(t, o)
    return o

def build(prop, variants=("ndebug", "assert")):
    os.makedirs(OUT, exist_ok=True)
    with ThreadPoolExecutor(16) as outer, ThreadPoolExecutor(9) as pool:
        suts = {v: outer.submit(build_sut, v, pool) for v in variants}
        hs = [outer.submit(build_har, os.path.join(HERE, "sim", "sim.cpp"), pool), outer.submit(build_har, os.path.join(HERE, "props", prop + ".cpp"), pool)]
        hobj = [h.result() for h in hs]
        res = {}
        for v in variants:
            s = suts[v].result()
            exe = os.path.join(os.path.dirname(s), "sim_%s" % prop)
            key = digest(hobj)
            exe += "_" + key
            if not os.path.exists(exe):
                t = exe + ".tmp%d" % os.getpid()
                run([CXX, "-no-pie", "-g", "-Wl,-z,noexecstack", *["-Wl,--defsym=%s=%s" % (b, t0) for a, b, t0 in redefs() if b != t0], "-o", t, *hobj, s]); os.rename(t, exe)
            res[v] = exe
        return res

if __name__ == "__main__":
    try: print(build(sys.argv[1], tuple(sys.argv[2:]) or ("ndebug", "assert")))
    except BuildError as e: print(e); sys.exit(2)
