#!/usr/bin/env python3
"""dev.py TARGET HARNESS.. [--tier thorough] [--full]: quick turnaround while writing harnesses (not used by checks).
Keeps bitcode in /tmp/dev_TARGET; recompiles harness files and changed sources."""
import os, sys, shutil, filecmp, subprocess, json
import concurrent.futures as cf
sys.path.insert(0, "/verif")
import check, config
args = [a for a in sys.argv[1:] if a[0] != "-"]
tname, names = args[0], args[1:]
target = config.TARGETS[tname]
w = "/tmp/dev_" + tname
new = w + "_new"
shutil.rmtree(new, ignore_errors=True)
os.makedirs(new)
eng = check.engine()
tree = check.prepare_tree(new, target)
full = "--full" in sys.argv or not os.path.exists(w + "/ok")
old = w + "/tree"
changed = set()
for base, _, files in os.walk(tree):
    for f in files:
        p = os.path.join(base, f); rel = os.path.relpath(p, tree); q = os.path.join(old, rel)
        if not os.path.exists(q) or not filecmp.cmp(p, q, shallow=False): changed.add(rel)
if any(c.endswith((".hh", ".hpp", ".h")) and c.startswith(("src", "include", "tools")) for c in changed): full = True
if full:
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
shutil.rmtree(old, ignore_errors=True); shutil.copytree(tree, old)
shutil.rmtree(new)
fl = check.flags(old, target)
extra = ["-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-emit-llvm", *check.UB]
out = []; jobs = []
with cf.ThreadPoolExecutor(8) as ex:
    srcs = [(s, os.path.join(old, s), full or s in changed) for s in target["sources"]]
    srcs += [(s, os.path.join(check.HARNESS, s), True) for s in target["harness"]]
    srcs += [("models", os.path.join(check.ENGINE, "sxmodels.cc"), True)]
    for n, p, todo in srcs:
        o = os.path.join(w, n.replace("/", "_") + ".bc"); out.append(o)
        if todo or not os.path.exists(o):
            jobs.append(ex.submit(check.run, [check.CXX, "-include", os.path.join(check.ENGINE, "sxpre.h"), *fl, *extra, "-c", p, "-o", o]))
    for j in jobs: j.result()
bc, obj, exe = (os.path.join(w, x) for x in ("all.bc", "all.o", "symx"))
check.run([os.path.join(eng, "sxpass"), bc, "main", *out])
check.run([check.CXX, "-O0", "-w", "-c", bc, "-o", obj])
check.run([check.CXX, obj, os.path.join(eng, "sxrt.o"), "-o", exe, "-lz3", "-lpthread"])
open(w + "/ok", "w").close()
tier = "1" if "thorough" in sys.argv else "0"
for n in names:
    o = w + "/" + n + ".json"
    subprocess.run([exe, "--harness", n, "--out", o, "--budget", "300", "--jobs", "8", "--path-timeout", "60", "--tier", tier], stdout=open(w + "/log", "w"), stderr=subprocess.STDOUT, cwd=w)
    r = json.load(open(o))
    print("%s: complete=%s done=%d outside=%d queries=%d wall=%.1f reached=%s err=%s left=%s conc=%s" % (n, r["complete"], r["paths_completed"], r["paths_outside_assumptions"], r["queries"], r["wall_s"], r["reached"], r["errors"][:2], r["left"], r["concretized"]))
    for v in r["violations"]:
        print("  VIOL", v["msg"], " ".join("%s=%d" % (a, c) for a, b, c in v["inputs"])[:600])
