"""Simulation core for the Python tools: choice tape, trace hash, minimisation, same driver interface as sim/sim.cc."""
import argparse, json, os, sys, time, traceback

M64 = (1 << 64) - 1


def splitmix(x):
    x = (x + 0x9E3779B97F4A7C15) & M64
    z = x
    z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & M64
    z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & M64
    return x, z ^ (z >> 31)


def mix_seed(base, i):
    x = (base * 0x9E3779B97F4A7C15 + i) & M64
    x, _ = splitmix(x)
    return splitmix(x)[1]


def hash64(data, h=0xCBF29CE484222325):
    if isinstance(data, str):
        data = data.encode("utf-8", "surrogateescape")
    for c in data:
        h = ((h ^ c) * 0x100000001B3) & M64
    return h ^ (h >> 29)


class Violation(Exception):
    def __init__(self, cls, msg):
        super().__init__(msg)
        self.cls, self.msg = cls, msg


class Sim:
    """One run: a pure function of the tape."""

    def __init__(self, seed=None, tape=None):
        self.tape_in, self.state_x = tape, seed
        self.tape, self.log, self.hash = [], [], 0xCBF29CE484222325
        self.faults, self.probes, self.states = {}, {}, set()
        self.nontrivial, self.now, self.sim_ns, self.spans = False, 0.0, 0.0, []

    def choose(self, n):
        if n <= 1:
            return 0
        if self.tape_in is not None:
            v = self.tape_in[len(self.tape)] % n if len(self.tape) < len(self.tape_in) else 0
        else:
            self.state_x, r = splitmix(self.state_x)
            v = (r * n) >> 64
        self.tape.append(v)
        return v

    def chance(self, num, den):
        return self.choose(den) >= den - num

    def pick(self, seq):
        return seq[self.choose(len(seq))]

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1):
            j = i + self.choose(len(seq) - i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def span(self):
        return Span(self)

    def ev(self, text):
        self.hash = hash64(text, self.hash)
        self.log.append(text)

    def fault(self, kind):
        self.faults[kind] = self.faults.get(kind, 0) + 1
        self.ev("  [fault] " + kind)

    def probe(self, name):
        self.probes[name] = self.probes.get(name, 0) + 1

    def state(self, text):
        self.states.add(hash64(text))

    def advance(self, s):
        self.now += s
        self.sim_ns += abs(s)

    def fail(self, cls, msg):
        raise Violation(cls, msg)

    def check(self, cond, cls, msg):
        if not cond:
            raise Violation(cls, msg)


class Span:
    def __init__(self, sim):
        self.sim = sim

    def __enter__(self):
        self.i = len(self.sim.spans)
        self.sim.spans.append([len(self.sim.tape), None])

    def __exit__(self, *a):
        self.sim.spans[self.i][1] = len(self.sim.tape)


class Outcome:
    pass


def run_once(body, seed, tape):
    s = Sim(seed, tape)
    o = Outcome()
    o.cls = o.msg = ""
    try:
        body(s)
    except Violation as v:
        o.cls, o.msg = v.cls, v.msg
        s.hash = hash64(v.cls, s.hash)
    except SystemExit as e:
        o.cls, o.msg = "crash:SystemExit", "unexpected exit %r" % (e.code,)
        s.hash = hash64(o.cls, s.hash)
    except Exception as e:  # anything escaping the code under test
        tb = traceback.extract_tb(e.__traceback__)
        o.cls = "crash:" + type(e).__name__
        o.msg = "%s at %s" % (e, tb[-1].name if tb else "?")
        s.hash = hash64(o.cls, s.hash)
    o.sim, o.hash, o.tape = s, s.hash, s.tape
    return o


def minimise(body, o, deadline):
    def fails(t):
        r = run_once(body, None, t)
        return r if r.cls == o.cls else None
    best = fails(o.tape)
    if best is None:
        return o
    progress = True
    while progress and time.time() < deadline:
        progress = False
        again = True
        while again and time.time() < deadline:
            again = False
            spans = sorted({(b, e) for b, e in best.sim.spans if e is not None and e > b}, key=lambda x: x[0] - x[1])
            for b, e in spans:
                r = fails(best.tape[:b] + best.tape[e:])
                if r and len(r.tape) < len(best.tape):
                    best, again, progress = r, True, True
                    break
                if time.time() > deadline:
                    break
        chunk = max(1, len(best.tape) // 2)
        while chunk >= 1 and time.time() < deadline:
            i = 0
            while i + chunk <= len(best.tape) and time.time() < deadline:
                r = fails(best.tape[:i] + best.tape[i + chunk:])
                if r and len(r.tape) < len(best.tape):
                    best, progress = r, True
                else:
                    i += chunk
            chunk //= 2
        i = 0
        while i < len(best.tape) and time.time() < deadline:
            for v in (0, best.tape[i] // 2, best.tape[i] - 1):
                if 0 <= v < best.tape[i]:
                    r = fails(best.tape[:i] + [v] + best.tape[i + 1:])
                    if r and len(r.tape) <= len(best.tape):
                        best, progress = r, True
                        break
            i += 1
    return best


def write_replay(name, path, seed, o, orig):
    json.dump({"harness": name, "seed": seed, "class": o.cls, "message": o.msg, "trace_hash": "%016x" % o.hash, "original_choices": orig,
               "choices": len(o.tape), "tape": o.tape, "faults": o.sim.faults, "events": o.sim.log}, open(path, "w"))


def main(name, body):
    ap = argparse.ArgumentParser()
    for a, d in (("base", 1), ("start", 0), ("stride", 1), ("count", 1)):
        ap.add_argument("--" + a, type=int, default=d)
    ap.add_argument("--time", type=float, default=1e9)
    ap.add_argument("--min-time", type=float, default=30)
    for a in ("out", "dump", "replay", "minimise", "save", "known"):
        ap.add_argument("--" + a)
    ap.add_argument("--one", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.replay or a.one:
        o = run_once(body, None, json.load(open(a.replay))["tape"]) if a.replay else run_once(body, mix_seed(a.base, a.start), None)
        print("\n".join(o.sim.log))
        print("RESULT class=%s hash=%016x tape=%d\n%s" % (o.cls or "ok", o.hash, len(o.tape), o.msg))
        return 1 if o.cls else 0
    if a.minimise:
        seed = int(a.minimise)
        o = run_once(body, seed, None)
        if not o.cls:
            print("NOREPRO")
            return 2
        m = minimise(body, o, time.time() + a.min_time)
        m = run_once(body, None, m.tape)
        if not m.cls:
            print("NONDET-MIN")
            return 2
        write_replay(name, a.save, seed, m, len(o.tape))
        return 0
    known = set((a.known or "").split("\n")) - {""}
    r = {"runs": 0, "nontrivial": 0, "events": 0, "choices": 0, "sim_s": 0.0, "runs_with_fault": 0, "faults": {}, "probes": {}, "known_seen": {},
         "samples": [], "violations": []}
    hashes, nth, states = set(), set(), set()
    t0 = time.time()
    dump = open(a.dump, "w") if a.dump else None
    i = a.start
    while i < a.count and time.time() - t0 < a.time:
        seed = mix_seed(a.base, i)
        o = run_once(body, seed, None)
        s = o.sim
        r["runs"] += 1
        r["events"] += len(s.log)
        r["choices"] += len(s.tape)
        r["sim_s"] += s.sim_ns
        hashes.add(o.hash)
        states |= s.states
        if s.nontrivial:
            r["nontrivial"] += 1
            nth.add(o.hash)
            if len(r["samples"]) < 2:
                r["samples"].append("\n".join(s.log)[:3000])
        for k, v in s.faults.items():
            r["faults"][k] = r["faults"].get(k, 0) + v
        for k, v in s.probes.items():
            r["probes"][k] = r["probes"].get(k, 0) + v
        r["runs_with_fault"] += bool(s.faults)
        if dump:
            dump.write("%d %016x %s\n" % (i, o.hash, o.cls))
        if o.cls:
            if o.cls in known:
                r["known_seen"][o.cls] = r["known_seen"].get(o.cls, 0) + 1
            else:
                r["violations"].append({"index": i, "seed": seed, "class": o.cls, "message": o.msg})
                break
        i += a.stride
    for k, v in (("hashes", hashes), ("nontrivial_hashes", nth), ("states", states)):
        r[k] = sorted(v)
    if dump:
        dump.close()
    json.dump(r, open(a.out, "w") if a.out else sys.stdout)
    return 1 if r["violations"] else 0
