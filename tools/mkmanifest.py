#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist under props/."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NA = {}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if not os.path.exists(os.path.join(V, "props", p.lower() + ".py")):
        na.append({"property": p, "reason": NA.get(p, "no check has been built for this property yet")})
        continue
    c = importlib.import_module("props." + p.lower()).CHECK
    checks.append({
        "property": p, "quick_cmd": "python3 check.py %s --tier quick" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": getattr(c, "technique", None) or "runtime monitoring: instrumented library (ASan+UBSan) driven by generated workloads, every execution judged by a reference-model monitor",
        "level": c.level,
        "level_note": "Held on every execution observed (seeded generation, see evidence); %s. Assumes: %s. Trusts the compiler's sanitizers, the driver's field tables and the reference model." % (
            c.rule.strip(), "; ".join(c.assumptions) or "nothing further"),
    })
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the public structures, the allocator, the system calls and the sanitizers are observed from outside."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(na), "not applicable")
