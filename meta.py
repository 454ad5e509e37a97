#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from one table (run by hand after editing; nothing else writes them)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P, NA = [], []

TECH = "deterministic simulation with fault injection: seeded search over thread schedules, task stealing and faults of the real code, results checked against a sequential reference model"
NOTE = ("Sampled, not exhaustive: 10^5 or more seeded runs per quick check, each one exactly repeatable from its seed. Real: all of NWGraph, libstdc++'s parallel algorithms, TBB's headers. "
        "Stub: the TBB scheduler library, pthread primitives, allocator, clock and file calls are the simulator's. Assumes sequentially consistent memory and g++ -O1 code.")


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, note=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": ["include/nwgraph/" + f if not f.startswith("bench/") else f for f in files],
         "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=a, _note=note))


def na(id, title, statement, files, mech, reason, over=("inputs",), text="every graph", why="the tests run it on a handful of small graphs"):
    prop(id, title, statement, list(over), text, why, files, mech)
    NA.append((id, reason))


exec(open(os.path.join(HERE, "meta_props.py")).read())

ids = [p["id"] for p in P]
assert len(ids) == len(set(ids))
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
nas = dict(NA)
checks = []
for p in P:
    if p["id"] in nas: continue
    checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s" % p["id"], thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
                       technique=TECH, level="exploration", level_note=(p["_note"] + " " if p["_note"] else "") + NOTE))
m = dict(version=1, setup_cmd="python3 check.py C01 --build-only", checks=checks, not_applicable=[dict(property=a, reason=b) for a, b in NA],
         notes="No hooks in /repo: the seams are the compiler's (-fsanitize=thread instrumentation calls, answered by the simulator instead of the race detector), the linker's (the TBB library, pthread, malloc, stdio, clock symbols) and the language's (templates). Genuine defects repaired in /repo and those recorded are in known-findings.txt.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")

try:
    import jsonschema
    for p in P: jsonschema.validate({k: v for k, v in p.items() if not k.startswith("_")}, json.load(open("/root/.vp/PROPERTIES.schema.json")))
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid:", len(P), "properties,", len(checks), "checks,", len(NA), "not applicable")
except ImportError:
    print("written (jsonschema not available: run with python3-vt)")
