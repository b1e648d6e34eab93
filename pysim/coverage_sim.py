"""C29: publication runs of coverage reports, interleaved step by step against a simulated retained-site branch.

Each publisher performs the steps of .github/workflows/coverage_pages.yml on its own checkout; every tool invocation is
the real tools/coverage_index.py.  Reports arrive late, twice, out of order or not at all; runs are cancelled between any
two steps, and a push from an outdated checkout is refused as git refuses it."""
import html.parser, json, os, re, shutil, sys, tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core, load  # noqa: E402

tool = load.load("coverage_index")
METRICS = ("lines", "functions", "branches")
SCRATCH = tempfile.mkdtemp(prefix="c29.", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
TARGETS = ["main", "pr/7", "pr/77", "pr/12", "tag/0.2.9", "tag/0.2.10", "tag/1.0.0", "pr/100"]


def when(seconds):
    import datetime
    return (datetime.datetime(2026, 8, 31, 23, 50, 0) + datetime.timedelta(seconds=seconds)).strftime("%Y-%m-%dT%H:%M:%SZ")


def run(sim, argv):
    if sim.chance(1, 2000):
        sim.probe("as a real process")
        return load.process(tool, argv)
    return load.cli(tool, argv)


class Report:
    """One finished coverage run: the artifact plus what the event says about it."""

    def __init__(self, sim, target, created, run_id, attempt, serial):
        self.target, self.created, self.run_id, self.attempt = target, created, run_id, attempt
        self.key = (created, run_id, attempt)
        self.completed = created + sim.choose(90000)
        self.sha = "%040x" % (serial * 0x9E3779B97F4A7C15F39CC0605CEDC835 % (1 << 160))
        self.pct = {}
        for m in METRICS:
            total = sim.pick([0, 1, 3, 1000, 123457])
            covered = sim.choose(total + 1)
            self.pct[m] = {"percent": 100.0 * covered / total if total else None, "covered": covered, "total": total}
        self.patch = sim.chance(1, 3)

    def summary(self):
        zero = {m: {"percent": 100.0, "covered": 1, "total": 1} for m in METRICS}
        s = {"measurements": {"overall": self.pct, "mbo/hash": zero}, "minimums": {"overall": {"lines": 50}}, "targets": {"overall": {"lines": 90.0}}}
        if self.patch:
            s["patch"] = {"lines": zero["lines"], "branches": {"percent": None, "covered": 0, "total": 0}}
        return s

    def __str__(self):
        return "%s created %s run %d attempt %d" % (self.target, when(self.created), self.run_id, self.attempt)


class Remote:
    """The coverage-pages branch: a tree of files and a revision."""

    def __init__(self):
        self.rev, self.files = 0, {}


def write_tree(root, files):
    for rel, text in files.items():
        p = os.path.join(root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(text)


def read_tree(root):
    out = {}
    for d, _, names in os.walk(root):
        for n in names:
            p = os.path.join(d, n)
            out[os.path.relpath(p, root)] = open(p).read()
    return out


class Rows(html.parser.HTMLParser):
    def __init__(self):
        super().__init__()
        self.rows, self.row, self.cell = [], None, None

    def handle_starttag(self, tag, attrs):
        if tag == "tr":
            self.row = []
        elif tag in ("td", "th") and self.row is not None:
            self.cell = {"text": "", "href": []}
        elif tag == "a" and self.cell is not None:
            self.cell["href"].append(dict(attrs).get("href", ""))

    def handle_endtag(self, tag):
        if tag == "td" and self.cell is not None:
            self.row.append(self.cell)
            self.cell = None
        elif tag == "tr" and self.row is not None:
            if self.row:
                self.rows.append(self.row)
            self.row = None

    def handle_data(self, data):
        if self.cell is not None:
            self.cell["text"] += data


def pct(v):
    return "n/a" if v["percent"] is None else "%.2f%%" % v["percent"]


def check_overview(sim, page, retained):
    """page shows exactly the retained reports, each once, and of the run that is retained."""
    p = Rows()
    p.feed(page)
    shown = {}
    for row in p.rows:
        target = row[0]["href"][0].strip("/") if row[0]["href"] else row[0]["text"]
        sim.check(target not in shown, "shown-twice", "%s appears twice in the overview" % target)
        shown[target] = row
    sim.check(set(shown) == set(retained), "overview-set", "overview shows %s, retained are %s" % (sorted(shown), sorted(retained)))
    order = [(0 if t == "main" else 1 if t.startswith("tag/") else 2, [-int(x) for x in re.findall(r"\d+", t)]) for t in shown]
    sim.check(order == sorted(order), "overview-order", "the overview lists " + " ".join(shown))
    for target, rep in retained.items():
        row = shown[target]
        texts = [c["text"].strip() for c in row]
        sim.check(texts[-3:] == [pct(rep.pct[m]) for m in METRICS], "overview-rates", "%s shows %s, its report has %s" % (target, texts[-3:], [pct(rep.pct[m]) for m in METRICS]))
        joined = " | ".join(texts)
        if rep.run_id == 0:
            sim.check("run 0" not in joined, "overview-legacy", "a report without a known run is shown as a run: " + joined)
        else:
            sim.check(re.search(r"run %d\b" % rep.run_id, joined), "overview-run", "%s should show run %d: %s" % (target, rep.run_id, joined))
            att = re.search(r"attempt (\d+)", joined)
            sim.check((int(att.group(1)) if att else 1) == rep.attempt, "overview-attempt", "%s should show attempt %d: %s" % (target, rep.attempt, joined))
            sim.check(any(rep.sha in h for c in row for h in c["href"]), "overview-commit", "%s should link commit %s" % (target, rep.sha))
            done = when(rep.completed)
            sim.check(done[:10] + " " + done[11:19] in joined, "overview-time", "%s completed %s, shown: %s" % (target, done, joined))


class Publisher:
    STEPS = ("checkout", "metadata", "legacy", "stage", "backfill", "site", "push")

    def __init__(self, sim, remote, world, name, report):
        self.sim, self.remote, self.world, self.name, self.report = sim, remote, world, name, report
        self.dir = tempfile.mkdtemp(dir=SCRATCH)
        self.at, self.done, self.pushed = 0, False, False

    def end(self, what):
        self.done = True
        shutil.rmtree(self.dir, ignore_errors=True)
        self.sim.ev("%s %s" % (self.name, what))

    def step(self):
        step = self.STEPS[self.at]
        self.at += 1
        getattr(self, "do_" + step)()
        if self.at == len(self.STEPS) and not self.done:
            self.end("finished")

    def p(self, *a):
        return os.path.join(self.dir, *a)

    def do_checkout(self):
        self.rev = self.remote.rev
        os.makedirs(self.p("site/coverage"), exist_ok=True)
        write_tree(self.p("site"), self.remote.files)
        r = self.report
        write_tree(self.p("report"), {"coverage-html/coverage-summary.json": json.dumps(r.summary()), "coverage-html/lcov/index.html": "lcov of " + r.sha})
        # coverage.py renders the landing page when the artifact is made
        rc, _ = run(self.sim, ["report", self.p("report/coverage-html/coverage-summary.json"), r.target, self.p("report/coverage-html/index.html")])
        self.sim.check(rc == 0, "tool-failed", "report exited %d" % rc)
        self.sim.ev("%s checkout rev %d for %s" % (self.name, self.rev, r))

    def metadata(self, summary, target, out, created, started, completed, run_id, attempt, sha):
        rc, _ = run(self.sim, ["metadata", summary, target, out, "--completed-at", completed, "--created-at", created, "--head-sha", sha,
                               "--run-attempt", str(attempt), "--run-id", str(run_id), "--started-at", started])
        self.sim.check(rc == 0, "tool-failed", "metadata exited %d" % rc)

    def do_metadata(self):
        r = self.report
        self.metadata(self.p("report/coverage-html/coverage-summary.json"), r.target, self.p("report/coverage-html/coverage-meta.json"),
                      when(r.created), when(r.created + 3), when(r.completed), r.run_id, r.attempt, r.sha)

    def do_legacy(self):
        root = self.p("site/coverage")
        for d in sorted(os.listdir(root)):
            if re.match(r"pr[1-9]", d) and os.path.isdir(os.path.join(root, d)):
                os.makedirs(os.path.join(root, "pr"), exist_ok=True)
                os.rename(os.path.join(root, d), os.path.join(root, "pr", d[2:]))

    def do_stage(self):
        r = self.report
        dest = self.p("site/coverage", r.target)
        cur = os.path.join(dest, "coverage-meta.json")
        if os.path.exists(cur):
            rc, _ = run(self.sim, ["newer", self.p("report/coverage-html/coverage-meta.json"), cur])
            old = self.world.at_rev[self.rev].get(r.target)
            self.sim.check(rc in (0, 1), "tool-failed", "newer exited %d" % rc)
            if rc:
                self.sim.check(old.key > r.key, "refused", "%s was refused although the site has only %s" % (r, old))
                self.sim.ev("%s ignored as older than %s" % (self.name, old))
                self.sim.probe("older report ignored")
                self.taken = False
                return
            self.sim.check(old.key <= r.key, "older-replaces", "%s replaces the newer %s" % (r, old))
            self.sim.probe("replayed report accepted" if old.key == r.key else "newer report accepted")
            self.sim.state("%s/%s/%s" % (old.created < r.created, old.run_id < r.run_id, old.attempt < r.attempt))
        if os.path.isdir(dest):
            shutil.rmtree(dest)
        shutil.copytree(self.p("report/coverage-html"), dest)
        self.taken = True

    def do_backfill(self):
        root = self.p("site/coverage")
        for d, _, names in sorted(os.walk(root)):
            if "coverage-summary.json" in names and "coverage-meta.json" not in names:
                zero = "1970-01-01T00:00:00Z"
                self.metadata(os.path.join(d, "coverage-summary.json"), os.path.relpath(d, root), os.path.join(d, "coverage-meta.json"), zero, zero, zero, 0, 0, "legacy")
                self.sim.probe("legacy report given metadata")

    def do_site(self):
        rc, _ = run(self.sim, ["site", self.p("site/coverage"), self.p("site/coverage/index.html")])
        self.sim.check(rc == 0, "tool-failed", "site exited %d" % rc)

    def do_push(self):
        if self.remote.rev != self.rev:
            self.sim.fault("push refused: the branch moved")
            self.world.retry.append(self.report)
            return self.end("push refused")
        old = self.world.at_rev[self.rev]
        new = dict(old)
        if self.taken:
            new[self.report.target] = self.report
        files = read_tree(self.p("site"))
        self.sim.ev("%s push: %s" % (self.name, "unchanged" if files == self.remote.files else "changed"))
        if files != self.remote.files:
            self.remote.rev += 1
            self.remote.files = files
        self.world.at_rev[self.remote.rev] = new
        self.world.published.add(self.report)
        self.world.verify()
        if self.report.key == new[self.report.target].key:
            self.pushed = True


class World:
    def __init__(self, sim, remote):
        self.sim, self.remote = sim, remote
        self.at_rev, self.retry, self.published = {}, [], set()

    def verify(self):
        """The published site is that of the newest report accepted so far, per target."""
        sim, now = self.sim, self.at_rev[self.remote.rev]
        best = dict(self.legacy)
        for r in self.published:
            if r.target not in best or r.key > best[r.target].key:
                best[r.target] = r
        for t, r in best.items():
            sim.check(now[t].key == r.key, "not-newest", "published for %s is %s although %s was published too" % (t, now[t], r))
            pub = self.remote.files.get("coverage/%s/coverage-meta.json" % t)
            sim.check(pub is not None, "lost", "%s has no metadata on the site" % t)
            meta = json.loads(pub)
            src = meta["source"]
            want = (when(r.created), r.run_id, r.attempt) if r.run_id else ("1970-01-01T00:00:00Z", 0, 0)
            sim.check((src["created_at"], src["run_id"], src["run_attempt"]) == want and meta["target"] == t, "site-differs",
                      "site has %s for %s, want %s" % (src, t, want))
            page = self.remote.files.get("coverage/%s/index.html" % t)
            if r.run_id:
                up = re.search(r'href="([./]+)">All reports', page or "")
                sim.check(up and os.path.normpath(os.path.join(t, up.group(1))) == ".", "report-link", "the report page of %s does not lead back to the overview: %s" % (t, up))
                p = Rows()
                p.feed(page)
                row = [c["text"] for c in p.rows[0]]
                want = [x for m in METRICS for x in (pct(r.pct[m]), str(r.pct[m]["covered"]), str(r.pct[m]["total"]))]
                sim.check(row[-9:] == want, "report-rates", "the report page of %s shows %s, measured was %s" % (t, row[-9:], want))
        check_overview(sim, self.remote.files["coverage/index.html"], best)
        sim.state("%d targets, %d published" % (len(best), min(12, len(self.published))))


def body(sim):
    remote = Remote()
    w = World(sim, remote)
    w.legacy = {}
    actors = []
    try:
        targets = TARGETS[:1 + sim.choose(len(TARGETS))]
        for t in targets:
            if not t.startswith("tag") and sim.chance(1, 6):
                r = Report(sim, t, 0, 0, 0, 1)
                r.key = (-10**12, 0, 0)
                r.created = -10**9
                w.legacy[t] = r
                old = t.replace("pr/", "pr") if sim.chance(1, 2) else t
                remote.files["coverage/%s/coverage-summary.json" % old] = json.dumps(r.summary())
        w.at_rev[0] = dict(w.legacy)
        clock, next_id = 0, sim.pick([1, 8, 95, 9990, 2**31 - 3, 17 * 10**9 - 2])
        made = []
        serial = 1
        pending = []
        for n in range(8 + sim.choose(70)):
            with sim.span():
                live = [a for a in actors if not a.done]
                what = sim.choose(8)
                if what == 0 or not (live or pending):
                    # a coverage run finishes: a new one, or another attempt of an earlier one
                    serial += 1
                    if made and sim.chance(1, 3):
                        b = sim.pick(made)
                        attempt = max(x.attempt for x in made if x.run_id == b.run_id) + 1 + 8 * sim.choose(2)
                        r = Report(sim, b.target, b.created, b.run_id, attempt, serial)
                    else:
                        step = sim.pick([0, 0, 1, 59, 600, 86400, 40 * 86400])
                        clock += step
                        sim.advance(step)
                        next_id += 1 + sim.choose(3)
                        r = Report(sim, sim.pick(targets), clock, next_id, 1, serial)
                    made.append(r)
                    pending.append(r)
                elif what == 1 and pending:
                    i = sim.choose(len(pending))
                    r = pending[i]
                    if sim.chance(1, 5):
                        sim.fault("report delivered twice")
                    else:
                        pending.pop(i)
                    if sim.chance(1, 10):
                        sim.fault("report lost")
                        continue
                    if len(live) < 4:
                        actors.append(Publisher(sim, remote, w, "p%d" % len(actors), r))
                        if any(x.key > r.key and x.target == r.target for x in made):
                            sim.fault("report delayed past a newer one")
                elif what == 2 and w.retry:
                    pending.append(w.retry.pop(sim.choose(len(w.retry))))
                elif live:
                    a = sim.pick(live)
                    if sim.chance(1, 40):
                        sim.fault("run cancelled between steps")
                        a.end("cancelled before " + a.STEPS[a.at])
                        w.retry.append(a.report)
                    else:
                        burst = 1 + sim.choose(7)
                        while burst and not a.done:
                            a.step()
                            burst -= 1
        # faults stop: everything still outstanding is delivered once, in any order; publication is then complete
        for a in actors:
            if not a.done:
                a.end("cancelled at the end")
                w.retry.append(a.report)
        for r in sim.shuffle(pending + w.retry):
            p = Publisher(sim, remote, w, "f", r)
            actors.append(p)
            while not p.done:
                p.step()
            if p.pushed:
                sim.probe("published at the end")
        if w.published:
            w.verify()
            sim.nontrivial = len(w.published) >= 3
            # re-publishing what is published changes nothing
            r = sim.pick(sorted(w.published, key=lambda r: (r.target, r.key)))
            if w.at_rev[remote.rev][r.target] is r:
                before = dict(remote.files)
                p = Publisher(sim, remote, w, "again", r)
                actors.append(p)
                while not p.done:
                    p.step()
                sim.check(remote.files == before, "not-idempotent", "publishing %s again changed the site" % r)
    finally:
        for a in actors:
            shutil.rmtree(a.dir, ignore_errors=True)


if __name__ == "__main__":
    try:
        rc = core.main("C29", body)
    finally:
        shutil.rmtree(SCRATCH, ignore_errors=True)
    sys.exit(rc)
