#!/usr/bin/env python3
"""run_check.py PROPERTY [--tier quick|thorough] [--replay FILE]

Builds the property's simulation harnesses from /repo's working tree, runs seeded simulations, gates and minimises
any violation, writes evidence/<property>.json.  Exit 0 held / 1 violation / 2 error of the check itself."""
import argparse, collections, json, os, subprocess, sys, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import simbuild  # noqa: E402
import checks  # noqa: E402

ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = "detect_leaks=0:malloc_context_size=4:allocator_may_return_null=1:handle_abort=0:detect_odr_violation=0:symbolize=0"
ENV["UBSAN_OPTIONS"] = "print_stacktrace=0:symbolize=0"
ENV["LC_ALL"] = "C"
ENV["TZ"] = "UTC"
WORKERS = int(os.environ.get("SIM_WORKERS", os.cpu_count() or 8))


class CheckError(Exception):
    pass


def known_findings(prop):
    """known/findings.json: list of {property, status: known|fixed, class, what}."""
    p = os.path.join(VERIF, "known", "findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k["property"] == prop and k["status"] == "known"]


def run_workers(exe, base, runs, cap, outdir, tag, known, extra=(), workers=None):
    nw = min(workers or WORKERS, max(1, runs))
    procs = []
    for w in range(nw):
        out = os.path.join(outdir, "%s.%d.json" % (tag, w))
        if os.path.exists(out):
            os.unlink(out)
        cmd = list(exe) + ["--base", str(base), "--start", str(w), "--stride", str(nw), "--count", str(runs), "--time", str(cap),
                     "--out", out, "--dump", out + ".dump"] + list(extra)
        if known:
            cmd += ["--known", "\n".join(known)]
        procs.append((subprocess.Popen(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=outdir), out))
    res = []
    for p, out in procs:
        try:
            so, se = p.communicate(timeout=cap + 300)
        except subprocess.TimeoutExpired:
            p.kill()
            raise CheckError("worker timed out: %s" % (exe,))
        if p.returncode not in (0, 1):
            raise CheckError("worker failed rc=%s: %s\n%s" % (p.returncode, exe, se.decode(errors="replace")[-2000:]))
        if not os.path.exists(out):
            raise CheckError("worker gave no result (rc=%s): %s\n%s" % (p.returncode, exe, se.decode(errors="replace")[-2000:]))
        res.append(json.load(open(out)))
    return res


def merge(parts):
    m = {"runs": 0, "nontrivial": 0, "events": 0, "choices": 0, "sim_s": 0.0, "runs_with_fault": 0}
    for k in ("faults", "probes", "known_seen"):
        m[k] = collections.Counter()
    for k in ("hashes", "nontrivial_hashes", "states"):
        m[k] = set()
    m["samples"], m["violations"] = [], []
    for p in parts:
        for k in ("runs", "nontrivial", "events", "choices", "sim_s", "runs_with_fault"):
            m[k] += p[k]
        for k in ("faults", "probes", "known_seen"):
            m[k].update(p[k])
        for k in ("hashes", "nontrivial_hashes", "states"):
            m[k].update(p[k])
        m["samples"] += p["samples"]
        m["violations"] += p["violations"]
    return m


def read_dump(outdir, tag):
    d = {}
    for f in os.listdir(outdir):
        if f.startswith(tag + ".") and f.endswith(".dump"):
            for line in open(os.path.join(outdir, f)):
                i, h, *c = line.split()
                d[int(i)] = (h, " ".join(c))
    return d


def gate_and_report(prop, exe, v, min_time, harness_key):
    """Confirms, minimises, replays in a fresh process. Returns replay path, or raises CheckError."""
    rdir = os.path.join(VERIF, "replays", prop)
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, "seed-%d.json" % v["seed"])
    for attempt in range(3):
        r = subprocess.run(list(exe) + ["--minimise", str(v["seed"]), "--start", str(v["index"]), "--save", path, "--min-time", str(min_time)], env=ENV,
                           capture_output=True, text=True, errors="replace", timeout=min_time + 400)
        if r.returncode == 0:
            break
    else:
        raise CheckError("violation of class %s at seed %d did not reproduce: %s %s" %
                         (v["class"], v["seed"], r.stdout[-500:], r.stderr[-500:]))
    rep = json.load(open(path))
    rep["property"], rep["target"] = prop, harness_key
    json.dump(rep, open(path, "w"), indent=1)
    outcomes = [replay(exe, path)[1:3] for _ in range(2)]
    if all(cls in (None, "ok") for cls, _ in outcomes):
        raise CheckError("fresh-process replay does not fail: %s vs %s/%s" % (outcomes, rep["class"], rep["trace_hash"]))
    if any(o != (rep["class"], rep["trace_hash"]) for o in outcomes):
        rep["note"] = "the failing code itself varies between executions (e.g. uninitialised memory): %s" % outcomes
        json.dump(rep, open(path, "w"), indent=1)
    return path, rep


def replay(exe, path):
    # The C++ driver's parser wants the tape on one line, which any JSON layout satisfies after re-dumping.
    rep = json.load(open(path))
    tmp = path + ".tape"
    with open(tmp, "w") as f:
        f.write('{"seed": %d, "tape": [%s]}\n' % (rep.get("seed", 0), ",".join(map(str, rep["tape"]))))
    try:
        r = subprocess.run(list(exe) + ["--replay", tmp], env=ENV, capture_output=True, text=True, errors="replace", timeout=300)
    finally:
        os.unlink(tmp)
    cls, h = None, None
    for line in r.stdout.splitlines():
        if line.startswith("RESULT class="):
            parts = line[len("RESULT class="):].rsplit(" hash=", 1)
            cls, h = parts[0], parts[1].split()[0]
    return r.returncode == 0, cls, h, r.stdout


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--build-only", action="store_true")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    t0 = time.time()
    prop = a.prop
    chk = checks.CHECKS[prop]
    exes = simbuild.build(chk.targets)
    exes = {k: [v] + next(t for t in chk.targets if t.name == k).sim_flags for k, v in exes.items()}
    exes.update(chk.scripts)
    t_build = time.time() - t0
    if a.build_only:
        print("built in %.1fs" % t_build)
        return 0
    if a.replay:
        rep = json.load(open(a.replay))
        ok, cls, h, out = replay(exes[rep["target"]], a.replay)
        print(out)
        same = cls == rep["class"] and h == rep["trace_hash"]
        print("replay class=%s hash=%s: %s" % (cls, h, "reproduces the recorded violation" if same else
                                               "differs from the recorded %s/%s" % (rep["class"], rep["trace_hash"])))
        if cls not in (None, "ok"):
            print("VIOLATION property=%s replay=%s" % (prop, a.replay))
            return 1
        return 0
    outdir = os.path.join(simbuild.BUILD, "runs", prop)
    os.makedirs(outdir, exist_ok=True)
    for f in os.listdir(outdir):
        os.unlink(os.path.join(outdir, f))
    known = known_findings(prop)
    allparts, per_target, found = [], {}, []
    t_sim0 = time.time()
    determinism = {"compared": 0, "differing": 0}
    for bi, (tname, runs, cap) in enumerate(chk.batches[a.tier]):
        runs = max(1, int(runs * a.scale))
        exe = exes[tname]
        tag = "b%d" % bi
        parts = run_workers(exe, a.seed, runs, cap, outdir, tag, [k["class"] for k in known])
        m = merge(parts)
        allparts += parts
        per_target[tname] = {"runs": m["runs"], "nontrivial": m["nontrivial"], "distinct_traces": len(m["hashes"]),
                             "planned_runs": runs}
        vs = sorted(m["violations"], key=lambda v: v["index"])
        found += [(tname, v) for v in vs]
        if vs:
            break
        # Determinism: repeat a sample in fresh processes with a different worker split, compare trace hashes.
        if tname not in chk.no_determinism_sample:
            n = min(m["runs"], 24 if a.tier == "quick" else 200)
            first = read_dump(outdir, tag)
            # contiguous low indexes are present whatever the time cap did
            run_workers(exe, a.seed, n, 60, outdir, "d%d" % bi, [k["class"] for k in known], workers=3)
            again = read_dump(outdir, "d%d" % bi)
            for i, hv in again.items():
                if i in first:
                    determinism["compared"] += 1
                    determinism["differing"] += first[i] != hv
    t_sim = time.time() - t_sim0
    m = merge(allparts)
    cov = {
        "evaluations": m["runs"],
        "distinct_nontrivial": len(m["nontrivial_hashes"]),
        "rule": chk.rule,
        "samples": [s[:1500] for s in m["samples"][:3]] or ["(no nontrivial sample)"],
        "simulated_runs": m["runs"],
        "runs_per_hour": int(m["runs"] / max(t_sim, 1e-3) * 3600),
        "seeds_per_hour": int(m["runs"] / max(t_sim, 1e-3) * 3600),
        "simulated_time_s": round(m["sim_s"], 3),
        "events": m["events"],
        "choices_drawn": m["choices"],
        "runs_with_fault": m["runs_with_fault"],
        "faults_injected": dict(sorted(m["faults"].items())),
        "probes": dict(sorted(m["probes"].items())),
        "distinct_traces": len(m["hashes"]),
        "distinct_states": len(m["states"]),
        "state_measure": chk.state_measure,
        "components_real": chk.real,
        "components_stub": chk.stub,
        "per_target": per_target,
        "determinism_sample": determinism,
        "known_findings_seen": dict(m["known_seen"]),
        "build_s": round(t_build, 1),
    }
    status, msgs = 0, []
    if determinism["differing"]:
        raise CheckError("nondeterminism: %s" % determinism)
    if found:
        tname, v = found[0]
        path, rep = gate_and_report(prop, exes[tname], v, 30 if a.tier == "quick" else 120, tname)
        msgs.append("violation class %s: %s" % (rep["class"], rep["message"][:1500]))
        for e in rep["events"][-40:]:
            msgs.append("  " + e)
        msgs.append("VIOLATION property=%s replay=%s" % (prop, path))
        status = 1
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if status == 0:
        need = chk.required_probes
        missing = [p for p in need if not (m["probes"].get(p) or m["faults"].get(p))]
        if missing:
            raise CheckError("workload no longer reaches: %s" % missing)
    ev = {"property": prop, "tier": a.tier, "seed": a.seed, "level": chk.level, "coverage": cov,
          "assumptions": chk.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(found)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for s in msgs:
        print(s)
    print("%s %s seed=%d: %d runs (%d nontrivial distinct, %d faults), build %.1fs, total %.1fs -> %s" % (
        prop, a.tier, a.seed, m["runs"], len(m["nontrivial_hashes"]), sum(m["faults"].values()), t_build, time.time() - t0,
        "VIOLATED" if status else "held"))
    return status


if __name__ == "__main__":
    try:
        rc = main()
    except (CheckError, simbuild.BuildError) as e:
        print("ERROR: %s" % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
