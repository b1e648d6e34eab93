"""C28: workflows saving caches and cleanup runs, interleaved step by step against a simulated cache service.

The cleanup actor performs the steps of .github/workflows/cache_cleanup.yml (list prefixes; per prefix: list, run
tools/cache_cleanup.py, delete each id it printed); the tool is the real one."""
import datetime, json, sys, os

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core, load  # noqa: E402

tool = load.load("cache_cleanup")
EPOCH = datetime.datetime(2026, 8, 1, 12, 0, 0)


def stamp(sim, ns, style):
    """RFC 3339 as the service's clients render it; style 0 is Go's RFC3339Nano (what gh prints): trailing zeros dropped."""
    t = EPOCH + datetime.timedelta(seconds=ns // 10**9)
    frac = "%09d" % (ns % 10**9)
    base = t.strftime("%Y-%m-%dT%H:%M:%S")
    if style == 0:
        frac = frac.rstrip("0")
        return base + ("." + frac if frac else "") + "Z"
    if style == 1:
        return base + "." + frac[:7] + "Z"
    return base + "Z"


class Service:
    def __init__(self, sim, style):
        self.sim, self.style = sim, style
        self.caches, self.next_id, self.ns = {}, sim.choose(3), 0
        self.max_ns = {}

    def tick(self):
        step = self.sim.pick([0 if self.ties else 10**9, 1, 100, 10**6, 5 * 10**8, 10**9, 61 * 10**9, 3600 * 10**9])
        if self.style == 1:
            step = step // 100 * 100 or (0 if self.ties else 100)
        if self.style == 2:
            step = step // 10**9 * 10**9 or (0 if self.ties else 10**9)
        self.ns += step
        self.sim.advance(step / 1e9)

    def save(self, prefix, suffix):
        self.tick()
        # Ids need not follow creation order.
        self.next_id += 1
        cid = self.next_id * 7919 % 100003 if self.scramble else self.next_id
        self.caches[cid] = {"id": cid, "key": prefix + suffix, "prefix": prefix, "ns": self.ns}
        self.max_ns[prefix] = self.ns
        self.sim.ev("save %d %s%s at %d" % (cid, prefix, suffix, self.ns))

    def listing(self, fields):
        rows = []
        for c in self.sim.shuffle(sorted(self.caches.values(), key=lambda c: c["id"])):
            row = {"id": c["id"], "key": c["key"], "createdAt": stamp(self.sim, c["ns"], self.style)}
            if self.extra:
                row["ref"] = "refs/heads/main"
                row["lastAccessedAt"] = stamp(self.sim, self.ns, self.style)
            rows.append(row)
        return rows


PREFIXES = ["ubuntu-gcc_14__opt-refs/heads/main", "ubuntu-gcc_14__opt-refs/heads/main2", "macos-26-refs/heads/main", "ubuntu-gcc_14__optx-refs/heads/main",
            "old-ubuntu-gcc_14__opt-refs/heads/main2", "x/macos-26-refs/heads/main", "Macos-26-refs/heads/main", "macos-26", "s-26-refs/heads/main", "macos-26-", "macos-26_arm-refs/heads/main"]


def matches(c, prefix):
    return c["key"].startswith(prefix)


class Cleanup:
    """One cleanup workflow run, one step at a time."""

    def __init__(self, sim, svc, name, prefixes):
        self.sim, self.svc, self.name = sim, svc, name
        self.todo = list(prefixes)
        self.queue, self.done = [], False
        self.deleted = 0

    def step(self, faults=True):
        sim, svc = self.sim, self.svc
        if self.queue:
            cid = self.queue.pop(0)
            if faults and sim.chance(1, 12):
                sim.fault("delete refused")
                return
            if cid not in svc.caches:
                sim.ev("%s delete %d: gone" % (self.name, cid))
                return
            sim.ev("%s delete %d" % (self.name, cid))
            del svc.caches[cid]
            self.deleted += 1
            return
        if not self.todo:
            self.done = True
            return
        prefix = self.todo.pop(0)
        if faults and sim.chance(1, 20):
            sim.fault("listing failed")
            self.done = True
            return
        rows = svc.listing(["id", "key", "createdAt"])
        shown = [svc.caches[r["id"]] for r in rows]
        run = load.process if sim.chance(1, 400) else load.cli
        kw = {} if run is load.process else {"takes_argv": True}
        rc, out = run(tool, [prefix], json.dumps(rows), **kw)
        sim.check(rc == 0, "tool-failed", "cache_cleanup.py exited %d for %s" % (rc, prefix))
        ids = [int(x) for x in out.split()]
        match = [c for c in shown if matches(c, prefix)]
        sim.ev("%s %s: %d of %d selected" % (self.name, prefix, len(ids), len(match)))
        sim.state("%d/%d/%d" % (min(len(match), 8), len(shown) - len(match), len(set(c["ns"] for c in match))))
        bad = [i for i in ids if i not in {c["id"] for c in match}]
        sim.check(not bad, "selected-unrelated", "selected %s whose key does not start with %s" % (bad, prefix))
        sim.check(len(set(ids)) == len(ids), "selected-twice", "an id is printed twice: %s" % ids)
        if match:
            kept = [c for c in match if c["id"] not in ids]
            newest = max(c["ns"] for c in match)
            describe = sorted((c["ns"], c["id"], stamp(sim, c["ns"], svc.style)) for c in match)
            sim.check(len(kept) == 1, "wrong-count", "%d caches kept for %s out of %s" % (len(kept), prefix, describe))
            sim.check(kept[0]["ns"] == newest, "dropped-newest", "kept %s, but the newest is from %d ns: %s" % (kept[0]["id"], newest, describe))
            if len(match) >= 3:
                sim.nontrivial = True
        self.queue = ids
        if faults and sim.chance(1, 25):
            sim.fault("workflow cancelled")
            self.queue = self.queue[:sim.choose(len(self.queue) + 1)]
            self.todo = []


def body(sim):
    svc = Service(sim, sim.choose(3))
    svc.scramble, svc.extra = sim.chance(1, 2), sim.chance(1, 3)
    # Two caches created in the same instant only meet one cleanup at a time: which of them counts as newest is not specified.
    svc.ties = sim.chance(1, 4)
    prefixes = PREFIXES[:1 + sim.choose(len(PREFIXES))]
    # The exact prefix set is disjoint except for the deliberate main/main2 pair: only non-overlapping ones are cleaned together.
    cleaned = [p for p in prefixes if not any(q != p and q.startswith(p) for q in prefixes)]
    actors = []
    if sim.chance(1, 80):  # a repository that was not cleaned for a long time
        p = sim.pick(prefixes)
        for n in range(100 + sim.choose(60)):
            svc.save(p, "-%d" % n)
    for n in range(4 + sim.choose(60)):
        with sim.span():
            live = [a for a in actors if not a.done]
            what = sim.choose(4)
            if what <= 1 or (what == 3 and not live):
                svc.save(sim.pick(prefixes), sim.pick(["-a", "-b", "", "-1f3"]))
            elif what == 2 and len(live) < (1 if svc.ties else 3):
                actors.append(Cleanup(sim, svc, "c%d" % len(actors), sim.shuffle(cleaned)))
                if live:
                    sim.probe("concurrent cleanup runs")
            elif live:
                sim.pick(live).step()
            # The newest cache ever saved under a cleaned prefix is never gone.
            for p in cleaned:
                if p in svc.max_ns:
                    sim.check(any(matches(c, p) and c["ns"] == svc.max_ns[p] for c in svc.caches.values()), "newest-gone",
                              "the newest cache of %s (saved at %d ns) was deleted" % (p, svc.max_ns[p]))
    # Saving stops: one undisturbed run converges, a second changes nothing.
    if sim.chance(1, 2):
        for a in actors:
            while not a.done:
                a.step(faults=False)
    for rnd in range(2):
        final = Cleanup(sim, svc, "final%d" % rnd, cleaned)
        while not final.done:
            final.step(faults=False)
        for p in cleaned:
            left = [c for c in svc.caches.values() if matches(c, p)]
            if p in svc.max_ns:
                sim.check(len(left) == 1 and left[0]["ns"] == svc.max_ns[p], "not-converged", "after a full cleanup %s has %d caches" % (p, len(left)))
        if rnd:
            sim.check(final.deleted == 0, "not-idempotent", "a repeated cleanup deleted %d more" % final.deleted)
    sim.probe("converged")


if __name__ == "__main__":
    sys.exit(core.main("C28", body))
