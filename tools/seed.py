#!/usr/bin/env python3
"""seed.py NAME PROPERTY 'needs' 'what it breaks' < edits ... helper used while planting bugs.

Usage: seed.py make NAME          (working tree of /repo holds the change: writes patch.diff, reverts)
       seed.py test NAME [PROP..] (demo on the clean tree, then with the patch: build, tests, demo, checks)
Nothing here is used by the checks."""
import json, os, subprocess, sys
V = "/verif"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def tests():
    r = sh("bash /opt/vp/build.sh > /tmp/seed.build 2>&1")
    if r.returncode: return "BUILD FAILED " + open("/tmp/seed.build").read()[-1500:]
    sh("bash /opt/vp/test.sh /tmp/seed.json")
    o = json.load(open("/tmp/seed.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    ok = set()
    for k in ("passed", "pass", "stable"):
        if k in o: ok |= set(o[k])
    miss = [b for b in base if b not in ok]
    return "tests ok" if not miss else "TESTS FAIL %s" % miss[:4]
def demo(d): 
    r = sh("bash %s/demo.sh" % d, cwd="/repo", timeout=300)
    return r.returncode, r.stdout[-700:]
cmd, name = sys.argv[1:3]
d = os.path.join(V, "seeded", name)
if cmd == "kit":   # kit NAME dbg|lib
    os.makedirs(d, exist_ok=True)
    if "dbg" in sys.argv:
        sh("cp %s/tools/demo/dbg/* %s/harness/dbg.hh %s/harness/mock_vpi.hh %s/harness/vpi_stubs.cc %s/" % (V, V, V, V, d))
        sh("cd %s/harness/stub && cp -r server.hh thread.hh sxthread.hh asio.hpp websocketpp %s/" % (V, d))
    else:
        sh("cp %s/tools/demo/demo.sh %s/tools/demo/vpi.hh %s/" % (V, V, d))
elif cmd == "make":
    os.makedirs(d, exist_ok=True)
    p = sh("git -C /repo diff").stdout
    assert p.strip(), "no change"
    open(d + "/patch.diff", "w").write(p)
    sh("git -C /repo checkout -- .")
    print(p)
else:
    assert not sh("git -C /repo status --short").stdout.strip(), "dirty"
    print("clean:", tests() if "-n" not in sys.argv else "", demo(d))
    r = sh("git -C /repo apply %s/patch.diff" % d)
    assert r.returncode == 0, r.stdout
    try:
        print("patched:", tests(), demo(d))
        props = [a for a in sys.argv[3:] if a[0] != "-"] or [json.load(open(d + "/meta.json"))["property"]]
        if "-c" not in sys.argv:
            for p in props:
                r = sh("python3 check.py " + p, cwd=V)
                print(p, "exit", r.returncode, "\n".join(r.stdout.splitlines()[-8:]))
    finally:
        sh("git -C /repo checkout -- .")
