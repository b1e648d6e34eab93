#!/usr/bin/env python3
"""Writes DESIGN.md: hand-written sections below, per-property sections from properties.jsonl and the check registry."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import checks

HEAD = open(os.path.join(V, "tools", "design_head.md")).read()
TAIL = open(os.path.join(V, "tools", "design_tail.md")).read()
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
man = json.load(open(os.path.join(V, "MANIFEST.json")))
known = json.load(open(os.path.join(V, "known", "findings.json")))
seeds = {os.path.basename(os.path.dirname(f)): json.load(open(f)) for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json")))}


def strip(s):
    return s.replace(checks.REPO + "/", "")


out = [HEAD.rstrip(), "", "## Per property", "",
       "What is drawn and what is compared (\"a run\"), which code is real, what replaces the rest, what counts as a distinct state, and the",
       "bounds. Costs are runs per batch with a cap in seconds of wall time on 8 cores; the cap is what normally ends a thorough batch.", ""]
for p in props:
    i = p["id"]
    if i not in checks.CHECKS:
        continue
    c = checks.CHECKS[i]
    out.append("### %s %s" % (i, p["title"]))
    out.append("")
    out.append("* **Reach beyond the tests**: " + p["why_tests_cant"])
    out.append("* **Decided by**: " + c.technique + ".")
    out.append("* **A run**: " + strip(c.rule) + ".")
    out.append("* **Real**: " + strip("; ".join(c.real)) + ". **Stand-in**: " + (strip("; ".join(c.stub)) or "none") + ".")
    out.append("* **States**: " + c.state_measure + ".")
    if c.assumptions:
        out.append("* **Bounds and assumptions**: " + strip("; ".join(c.assumptions)) + ".")
    for tier in ("quick", "thorough"):
        out.append("* **%s**: " % tier.capitalize() + ", ".join("%s %d runs / %d s" % b for b in c.batches[tier]) + ".")
    mine = [k for k, s in seeds.items() if s["property"] == i]
    if mine:
        out.append("* **Planted**: " + ", ".join(mine) + ".")
    out.append("")
out += ["## Not applicable", "", "No execution to simulate: listed in properties.jsonl and under `not_applicable` in MANIFEST.json.", ""]
for n in man["not_applicable"]:
    out.append("* **%s** %s: %s" % (n["property"], next(p["title"] for p in props if p["id"] == n["property"]), n["reason"]))
out += ["", "## Genuine defects found and repaired", "",
        "Each is a `fix:` commit in /repo and a `fixed:` entry in known/findings.json; the check passes on the repaired tree and alarms when",
        "the repair is taken out again. No entry suppresses anything.", ""]
for e in known:
    out.append("* %s `%s` %s" % (e["property"], e.get("commit", "open"), e["what"].split(e["commit"], 1)[-1].strip() if e.get("commit") else e["what"]))
out += ["", "## Planted bugs", "", "All confirmed with `tools/plant.py` (applies, builds, stable tests pass, demo 0 without and nonzero with it).", "",
        "| id | property | needs | caught by |", "|---|---|---|---|"]
for k, s in seeds.items():
    out.append("| %s | %s | %s | %s |" % (k, s["property"], s["needs"], s.get("caught_by", s["property"])))
out += ["", TAIL.rstrip(), ""]
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
print("DESIGN.md", len("\n".join(out)))
