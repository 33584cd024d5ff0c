#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks present in analysis/checks and the table of properties that are not claimed."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "analysis"), os.path.join(V, "analysis", "checks")]
sys.dont_write_bytecode = True
NA = {
    "C31": "Equality of whole-program outputs quantifies over run-time values of the compiled program; no static argument over the compiler's "
           "source bounds it. The clauses whose truth is in the shape of the code are the other properties.",
    "C32": "Termination and stack use depend on the size and nesting of the input at run time (recursive descent over an unbounded AST, fixpoint "
           "loops over program-sized sets); no sound static bound is in reach.",
}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if os.path.exists(os.path.join(V, "analysis", "checks", pid.lower() + ".py")) and pid not in NA:
        m = importlib.import_module(pid.lower())
        checks.append({
            "property": pid, "quick_cmd": f"python3 check.py {pid}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {pid}",
            "technique": getattr(m, "TECHNIQUE", "abstract interpretation of the MIR (template extraction) against a specification table"),
            "level": "other", "level_note": getattr(m, "NOTE", m.RULE + " Assumes: " + "; ".join(m.ASSUMPTIONS)),
        })
    else:
        na.append({"property": pid, "reason": NA.get(pid, "No check has been built for it yet.")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "All checks read /repo's current sources through a rustc driver (analysis/mirload.py); nothing of /repo is executed. See DESIGN.md."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(na), "not claimed")
