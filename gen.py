#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from harness/spec.py (one source for both)."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "harness"))
import spec, config
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in spec.PROPERTIES:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
checks, na = [], []
for p in spec.PROPERTIES:
    if p["id"] in config.PROPS:
        c = {"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
             "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
             "technique": "path-exhaustive symbolic execution of the LLVM IR of the real sources, every decision and assertion decided by Z3 (QF_BV)",
             "level": "model_checking", "level_note": p["note"]}
        checks.append(c)
    else:
        na.append({"property": p["id"], "reason": p["reason"]})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the checks compile /repo's sources as they are (some with a stand-in for the network layer, see DESIGN.md)."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
# tables of DESIGN.md
def between(text, a, b, new):
    i, j = text.index(a) + len(a), text.index(b)
    return text[:i] + "\n" + new + "\n" + text[j:]


def table():
    out = []
    for p in spec.PROPERTIES:
        out.append("### %s  %s\n" % (p["id"], p["title"]))
        if p["id"] not in config.PROPS:
            out.append("Not applicable: %s\n" % p["reason"])
            continue
        c = config.PROPS[p["id"]]
        out.append("Encoded: %s.\n" % "; ".join(f.replace("*", "\\*") for f in c["functions"]))
        out.append("| target | harness | explored within |\n|---|---|---|")
        for t, hs in c["targets"].items():
            for h in hs:
                out.append("| %s | `%s`%s | %s |" % (t, h["name"], " (thorough)" if h.get("thorough_only") else "", h["bounds"].replace("|", "\\|")))
        out.append("")
    return "\n".join(out)


def seeds():
    out = ["| planted | property | needs | caught by |", "|---|---|---|---|"]
    d = os.path.join(V, "seeded")
    caught = json.load(open(os.path.join(V, "tools", "caught.json")))
    for n in sorted(os.listdir(d)):
        m = json.load(open(os.path.join(d, n, "meta.json")))
        out.append("| `%s` | %s | %s | %s |" % (n, m["property"], m["needs"].replace("|", "\\|"), caught.get(n, "")))
    return "\n".join(out)


dp = os.path.join(V, "DESIGN.md")
with open(dp) as f:
    text = f.read()
text = between(text, "<!-- table -->", "<!-- end -->", table())
text = between(text, "<!-- seeds -->", "<!-- endseeds -->", seeds())
with open(dp, "w") as f:
    f.write(text)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    ps = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(V, "properties.jsonl")):
        jsonschema.validate(json.loads(l), ps)
    print("valid", len(checks), "checks", len(na), "not applicable")
except ImportError:
    print("written (not validated)")
