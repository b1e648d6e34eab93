#!/usr/bin/env python3
"""Writes MANIFEST.json from the check registry and the not-applicable reasons."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import checks
PURE = "pure function of its input: no schedule, clock, I/O, fault, allocation or shared state takes part, so there is nothing to simulate; "
NA = {
    "P01": PURE + "(streaming, alignment/bounds and concurrency aspects of hashing are claimed in C04 and C05)",
    "P02": PURE + "(the I/O and exit-status side of diffing is claimed in C18)",
    "P03": PURE + "string grammar over one argument",
    "P04": PURE + "integer formatting and measuring",
    "P05": PURE + "(the process-wide option state is claimed in C26)",
    "P06": PURE + "value tree to text",
    "P07": PURE + "pattern to regex translation (directory traversal under faults is claimed in C14)",
    "P08": "decided entirely at compile time; there is no execution to simulate",
    "P09": PURE + "one line in, one record out (the verification loop around it is claimed in C17)",
    "P10": PURE + "one container in, one out",
    "P11": PURE + "text-in/text-out policy tools (the time- and order-dependent tools are claimed in C28 and C29)",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": [],
     "notes": "All checks share run_check.py; replay a violation with: python3 run_check.py <ID> --replay <file>. See DESIGN.md."}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 run_check.py %s --tier quick" % i,
                            "thorough_cmd": "python3 run_check.py %s --tier thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": c.technique, "level": c.level,
                            "level_note": c.level_note})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check has been built for this property yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks;", len(m["not_applicable"]), "not applicable")
