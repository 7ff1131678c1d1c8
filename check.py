#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--only HARNESS] [--keep] [-v]

Decides one property by symbolic execution of the real code (see DESIGN.md):
  1. copies /repo's current sources, compiles them and the harness to LLVM bitcode,
  2. links and instruments them (engine/sxpass.cc), links the runtime (engine/sxrt.cc),
  3. explores every feasible path of each harness, Z3 deciding each symbolic decision,
  4. replays counterexamples (and a sample of ordinary paths) against a plain native build,
  5. writes evidence/<property>.json; exit 0 / exit 1 with VIOLATION lines.
"""
import argparse
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
ENGINE = os.path.join(VERIF, "engine")
HARNESS = os.path.join(VERIF, "harness")
sys.path.insert(0, HARNESS)
import config  # noqa: E402

CXX = "clang++-18"
HEADERS = ("algorithm functional iomanip map memory optional set sstream string tuple "
           "unordered_map unordered_set vector").split()
UB = ["-fsanitize=shift-exponent", "-fsanitize-trap=shift-exponent"]
T0 = time.time()
VERBOSE = False


def log(*a):
    if VERBOSE:
        print("[%6.1f]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if r.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout


class BuildError(Exception):
    pass


def engine():
    """Builds the engine once per content (in /verif/build, not committed)."""
    h = hashlib.sha256()
    for f in ("sxpass.cc", "sxrt.cc", "race.hh"):
        with open(os.path.join(ENGINE, f), "rb") as fh:
            h.update(fh.read())
    d = os.path.join(VERIF, "build", "engine-" + h.hexdigest()[:16])
    if os.path.exists(os.path.join(d, "ok")):
        return d
    os.makedirs(os.path.dirname(d), exist_ok=True)
    tmp = tempfile.mkdtemp(dir=os.path.dirname(d))
    cpp = run(["llvm-config-18", "--cppflags"]).split()
    with cf.ThreadPoolExecutor(2) as ex:
        a = ex.submit(run, [CXX, "-O1", "-std=c++17", "-fno-rtti", *cpp, os.path.join(ENGINE, "sxpass.cc"), "-o",
                            os.path.join(tmp, "sxpass"), "-L/usr/lib/llvm-18/lib", "-lLLVM-18"])
        b = ex.submit(run, [CXX, "-O2", "-std=c++17", "-c", os.path.join(ENGINE, "sxrt.cc"), "-o",
                            os.path.join(tmp, "sxrt.o")])
        a.result()
        b.result()
    open(os.path.join(tmp, "ok"), "w").close()
    try:
        os.rename(tmp, d)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return d


def prepare_tree(work, target):
    """A private copy of the sources, minus what needs sqlite_orm (exactly as the repo's own build here
    does it), with the stand-ins the target asks for."""
    tree = os.path.join(work, "tree")
    for sub in ("src", "include", "tools"):
        shutil.copytree(os.path.join(REPO, sub), os.path.join(tree, sub))
    over = os.path.join(work, "overlay")
    run(["python3", "/opt/vp/cmake/overlay.py", REPO, over])
    for sub in ("src", "include"):
        for base, _, files in os.walk(os.path.join(over, sub)):
            for f in files:
                rel = os.path.relpath(os.path.join(base, f), over)
                shutil.copy(os.path.join(base, f), os.path.join(tree, rel))
    with open(os.path.join(tree, "include", "schema.json")) as f:
        schema = f.read()
    with open(os.path.join(tree, "src", "jschema.hh.in")) as f:
        text = f.read()
    with open(os.path.join(tree, "src", "jschema.hh"), "w") as f:
        f.write(text.replace("${JSON_SCHEMA}", schema))
    for dst, src in target.get("stub", {}).items():
        os.makedirs(os.path.dirname(os.path.join(tree, dst)), exist_ok=True)
        shutil.copy(os.path.join(HARNESS, "stub", src), os.path.join(tree, dst))
    return tree


def flags(tree, target):
    fl = ["-std=c++20", "-w", "-g0", "-fwrapv", "-DFMT_HEADER_ONLY", "-DFMT_CONSTEVAL=", "-D_GLIBCXX_ASSERTIONS",
          "-DASIO_STANDALONE", "-I" + os.path.join(tree, "include"), "-I" + os.path.join(tree, "src"),
          "-I/usr/share/verilator/include/vltstd", "-I" + ENGINE, "-I" + HARNESS, "-I" + tree, *target.get("pre", [])]
    for h in HEADERS:
        fl += ["-include", h]
    return fl + target.get("flags", [])


def compile_all(work, tree, target, eng, native):
    fl = flags(tree, target)
    srcs = [os.path.join(tree, s) for s in target["sources"]]
    srcs += [os.path.join(HARNESS, s) for s in target["harness"]]
    out = []
    jobs = []
    with cf.ThreadPoolExecutor(8) as ex:
        if native:
            san = "thread" if target.get("race") else "address"   # thread: engine/sxrace.cc stands in for the runtime
            extra = ["-O1", "-fsanitize=" + san, "-fno-omit-frame-pointer", *UB]
            if target.get("race"):
                jobs.append(ex.submit(run, [CXX, "-std=c++20", "-O1", "-c", os.path.join(ENGINE, "sxrace.cc"), "-o", os.path.join(work, "n_race.o")]))
                out.append(os.path.join(work, "n_race.o"))
            for s in srcs + [os.path.join(ENGINE, "sxnative.cc")]:
                o = os.path.join(work, "n_" + re.sub(r"\W", "_", os.path.relpath(s, work))[-80:] + ".o")
                out.append(o)
                jobs.append(ex.submit(run, [CXX, *fl, *extra, "-c", s, "-o", o]))
        else:
            extra = ["-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-emit-llvm", *UB]
            for s in srcs + [os.path.join(ENGINE, "sxmodels.cc")]:
                o = os.path.join(work, "s_" + re.sub(r"\W", "_", os.path.relpath(s, work))[-80:] + ".bc")
                out.append(o)
                jobs.append(ex.submit(run, [CXX, "-include", os.path.join(ENGINE, "sxpre.h"), *fl, *extra, "-c", s, "-o", o]))
        for j in jobs:
            j.result()
    if native:
        exe = os.path.join(work, "native")
        run([CXX, *([] if target.get("race") else ["-fsanitize=address"]), *out, "-o", exe, "-rdynamic", "-lpthread"])
        return exe, None
    bc, obj, exe = (os.path.join(work, x) for x in ("all.bc", "all.o", "symx"))
    rep = run([os.path.join(eng, "sxpass"), bc, "main", *out])
    run([CXX, "-O0", "-w", "-c", bc, "-o", obj])
    run([CXX, obj, os.path.join(eng, "sxrt.o"), "-o", exe, "-lz3", "-lpthread"])
    return exe, rep


def replay_native(exe, harness, raw, work, tier, timeout):
    fd, path = tempfile.mkstemp(dir=work)
    with os.fdopen(fd, "w") as f:
        f.write(raw)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=76:handle_abort=1:detect_stack_use_after_return=0:allocator_may_return_null=1",
               VERIF_TIER=tier)
    try:
        r = subprocess.run([exe, harness, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", env=env, timeout=timeout, cwd=work)
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
        rc = "timeout"
    os.unlink(path)
    return rc, out


def known_findings(prop):
    res = []
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        with open(p) as f:
            for e in json.load(f):
                if e["property"] == prop and e.get("status") == "known":
                    res.append(e)
    return res


def main():
    global VERBOSE
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--keep")
    ap.add_argument("--self-check", action="store_true")
    ap.add_argument("--no-native", action="store_true")
    ap.add_argument("-v", action="store_true")
    args = ap.parse_args()
    VERBOSE = args.v
    if args.setup:
        print("engine in", engine())
        return
    tier = "thorough" if args.tier == "thorough" else "quick"
    prop = args.property
    spec = config.PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    work = args.keep or tempfile.mkdtemp(prefix="hgdbverif-")
    if args.keep:
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(work)
    try:
        rc = decide(args, prop, spec, tier, seed, work)
    finally:
        if not args.keep:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def decide(args, prop, spec, tier, seed, work):
    eng = engine()
    log("engine ready")
    results, functions, exts, problems, violations, replays_ok, replays_bad = [], set(), set(), [], [], 0, []
    incomplete = []
    budget_total = spec.get("budget", 600) if tier == "quick" else spec.get("thorough_budget", 5400)
    for ti, tname in enumerate(spec["targets"]):
        target = config.TARGETS[tname]
        tw = os.path.join(work, tname)
        os.makedirs(tw)
        tree = prepare_tree(tw, target)
        with cf.ThreadPoolExecutor(2) as ex:
            fn = None if args.no_native else ex.submit(compile_all, tw, tree, target, eng, True)
            exe, rep = compile_all(tw, tree, target, eng, False)
            log("symbolic build done", tname)
            native = fn.result()[0] if fn else None
        log("built", tname)
        for line in rep.splitlines():
            if line.startswith("EXT "):
                exts.add(line[4:])
        names = [n for n in spec["targets"][tname] if tier == "thorough" or not n.get("thorough_only")]
        have = set(run([exe, "--list"]).split())
        for h in names:
            name = h["name"]
            if args.only and name != args.only:
                continue
            if name not in have:
                raise BuildError("harness %s missing" % name)
            out = os.path.join(tw, name + ".json")
            left = budget_total - (time.time() - T0)
            b = max(20, min(left, h.get("budget", {}).get(tier, budget_total)))
            cmd = [exe, "--harness", name, "--out", out, "--budget", str(int(b)), "--jobs", "8",
                   "--path-timeout", str(h.get("path_timeout", 60)), "--tier", "1" if tier == "thorough" else "0"]
            if args.self_check:
                cmd.append("--self-check")
            if VERBOSE:
                cmd.append("-v")
            with open(os.path.join(tw, name + ".log"), "w") as lf:
                p = subprocess.Popen(cmd, stdout=lf, stderr=None if VERBOSE else lf, cwd=tw)
                p.wait()
            if p.returncode or not os.path.exists(out):
                raise BuildError("symbolic run of %s failed with %s" % (name, p.returncode))
            with open(out) as f:
                r = json.load(f)
            log("%s: complete=%s paths=%d queries=%d solver=%.1fs wall=%.1fs viol=%d err=%s conc=%s" % (
                name, r["complete"], r["paths"], r["queries"], r["solver_s"], r["wall_s"], len(r["violations"]), r["errors"][:2], r["concretized"]))
            r["bounds"] = h.get("bounds", "")
            results.append(r)
            missing = [w for w in h.get("reach", ["end"]) if w not in r["reached"]]
            r["witness_missing"] = missing
            for v in r["violations"]:
                rc, text = replay_native(native, name, v["raw"], tw, tier, 60) if native else (77, "(no native build)")
                bad = rc not in (0, 78)
                if bad:
                    violations.append((name, v, rc, text))
                elif "timeout" in v["msg"] or "killed" in v["msg"]:  # slow to explore, not a hang of the real code
                    incomplete.append("%s: a path was given up (%s)" % (name, v["msg"]))
                else:
                    replays_bad.append((name, v["msg"], rc))
            if r["errors"]:
                problems.append("%s: engine: %s" % (name, r["errors"][0]))
            if not r["complete"] and not r["violations"]:
                incomplete.append("%s: not exhausted within the budget (%s; %d paths left, %d unknown, %d timed out)" % (
                    name, r["stop"], r["left"], r["unknown"], r["timeouts"]))
            if missing and r["complete"] and not r["violations"]:
                problems.append("%s: reachability witness not reached: %s" % (name, ", ".join(missing)))
            # ordinary paths replayed on the plain build: the encoding and the real code must agree
            if native and not r["violations"]:
                for s in r["samples"][:4]:
                    raw = "".join("%d %d\n" % (w, v) for _, w, v in s)
                    rc, text = replay_native(native, name, raw, tw, tier, 60)
                    if rc == 0:
                        replays_ok += 1
                    else:
                        replays_bad.append((name, "ordinary path", rc, text[-600:]))
        if not args.keep:
            shutil.rmtree(tw, ignore_errors=True) if not violations else None
    # known findings
    reported, known = [], []
    kf = known_findings(prop)
    for name, v, rc, text in violations:
        m = None
        for e in kf:
            if e["harness"] == name and re.search(e["match"], v["msg"] + "\n" + text):
                m = e
        (known if m else reported).append((name, v, rc, text, m))
    seen = set()
    for name, v, rc, text, m in known:
        if m["what"] not in seen:
            seen.add(m["what"])
            print("KNOWN-FINDING: property=%s %s" % (prop, m["what"]))
    rdir = os.path.join(VERIF, "replays")
    for i, (name, v, rc, text, _) in enumerate(reported):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s-%d.txt" % (prop, name, i))
        with open(path, "w") as f:
            f.write("property %s, harness %s: %s\n\nsolver model (symbolic inputs):\n" % (prop, name, v["msg"]))
            for n, w, x in v["inputs"]:
                f.write("  %s = %d (0x%x, %d bits)\n" % (n, x, x, w))
            f.write("\nnative replay against the real code: exit %s\n%s\n" % (rc, text[-8000:]))
            f.write("\nraw:\n%s" % v["raw"])
        print("%s: %s" % (name, v["msg"]))
        tail = [l for l in text.splitlines() if "ASSERTION" in l or "ERROR" in l or "note" in l][-6:]
        for l in tail:
            print("   ", l.strip()[:300])
        print("VIOLATION property=%s replay=%s" % (prop, path))
    tot = lambda k: sum(r[k] for r in results)
    cov = {
        "explanation": "Path-exhaustive symbolic execution of the LLVM IR of the real sources; every symbolic decision "
                       "decided by Z3 (QF_BV) within the bounds listed per harness.",
        "states": tot("paths_completed"),
        "transitions": tot("symbolic_decisions"),
        "traces_validated_against_impl": replays_ok,
        "exhaustive": all(r["complete"] for r in results) and not problems,
        "incomplete": incomplete,
        "queries_discharged": {"total": tot("queries"), "unsat": tot("unsat"), "sat": tot("sat"), "unknown": tot("unknown")},
        "solver_s": round(tot("solver_s"), 2),
        "assertions_evaluated": tot("assertions"),
        "paths_outside_assumptions": tot("paths_outside_assumptions"),
        "values_case_split": tot("concretizations"),
        "functions_encoded": spec.get("functions", []),
        "sources_encoded": sorted({s for t in spec["targets"] for s in config.TARGETS[t]["sources"]}),
        "external_functions_not_encoded": len(exts),
        "harnesses": [{"name": r["harness"], "bounds": r["bounds"], "complete": r["complete"], "paths": r["paths_completed"],
                       "queries": r["queries"], "solver_s": round(r["solver_s"], 2), "wall_s": round(r["wall_s"], 2),
                       "max_depth": r["max_depth"], "witnesses": r["reached"]} for r in results],
        "samples": [{"harness": r["harness"], "inputs": r["samples"][-1] if r["samples"] else []} for r in results][:12],
        "problems": problems,
        "not_reproduced": [str(x) for x in replays_bad],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": spec.get("assumptions", []) + config.COMMON_ASSUMPTIONS,
          "wall_s": round(time.time() - T0, 2), "violations": len(reported)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not args.only:
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s %s: %d harnesses, %d paths, %d queries (%d unsat), solver %.1f s, wall %.1f s" % (
        prop, tier, len(results), tot("paths_completed"), tot("queries"), tot("unsat"), tot("solver_s"), time.time() - T0))
    if reported:
        return 1
    for x in replays_bad:
        print("NOT REPRODUCED NATIVELY:", x)
    for p in incomplete:
        print("INCOMPLETE:", p)
    for p in problems:
        print("PROBLEM:", p)
    if problems or replays_bad:
        return 3
    return 0


if __name__ == "__main__":
    try:
        main()
    except BuildError as e:
        print("ERROR:", e)
        sys.exit(2)
