"""C36: the shell steps of .github/workflows/cache_cleanup.yml and coverage_pages.yml, taken from the files and run by the real bash,
while the commands they call fail or die, the step is cancelled, and the cache service and the retained branch change under them."""
import io, json, os, re, shutil, signal, subprocess, sys, tarfile

import yaml

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core, faultbox, load, release_sim  # noqa: E402

place, GIT = release_sim.place, "/usr/bin/git"
shutil.rmtree(os.path.join(place.dir, "bin"))
shutil.rmtree(os.path.join(place.dir, "real"))
helpers = faultbox.Helpers(place, ["git", "gh", "date", "python3", "rsync", "mkdir", "find", "cat", "jq", "sed", "sort", "mv", "rm", "cp", "mktemp", "tr", "grep", "awk", "head"])
release_sim.helpers = helpers
DATA, ORIGIN, WORK, TMP, HOME = (os.path.join(place.dir, n) for n in ("data", "pages.git", "job", "jobtmp", "jobhome"))
os.mkdir(DATA)
os.mkdir(HOME)
EVENT = os.path.join(place.dir, "event")
ENV = {"HOME": HOME, "GIT_CONFIG_NOSYSTEM": "1", "GIT_TERMINAL_PROMPT": "0", "LC_ALL": "C.UTF-8", "TZ": "UTC", "TMPDIR": TMP, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0"}
PLAIN = dict(ENV, PATH="/usr/local/bin:/usr/bin:/bin")

helpers.stand_in("date", """#!/bin/bash
for a; do case "$a" in --date=*) when="${a#--date=}" ;; -d) echo "date: unknown form" >&2; exit 1 ;; *) form+=("$a") ;; esac; done
exec /usr/bin/date "${form[@]}" --date="$(/usr/bin/cat %s/now) UTC ${when}"
""" % DATA)
# the cache service and pull requests as gh shows them; real jq renders
helpers.stand_in("gh", r"""#!/bin/bash
unset SIM_HELPER; PATH=/usr/bin:/bin; D=%s
cmd="$1 $2"; arg="$3"; ref=; jq=; json=; limit=30
[ "$1" = api ] && arg="$2"
shift
while [ $# -gt 0 ]; do
  case "$1" in --ref) ref="$2"; shift ;; --jq) jq="$2"; shift ;; --json) json="$2"; shift ;; --limit) limit="$2"; shift ;; esac
  shift
done
show() {
  local keep='.'
  [ -z "$json" ] || keep="[.[]|{${json}}]"
  if [ -n "$jq" ]; then /usr/bin/jq -c "$keep" | /usr/bin/jq -r "$jq"; else /usr/bin/jq -c "$keep"; fi
}
case "$cmd" in
  "cache list") /usr/bin/jq -c --arg ref "$ref" "[.[]|select(\$ref == \"\" or .ref==\$ref)]|.[:$limit]" $D/caches.json | show ;;
  "cache delete")
    if /usr/bin/jq -e --arg k "$arg" 'any(.[]; (.id|tostring)==$k or .key==$k)' $D/caches.json >/dev/null; then
      /usr/bin/jq -c --arg k "$arg" '[.[]|select((.id|tostring)!=$k and .key!=$k)]' $D/caches.json > $D/caches.new && /usr/bin/mv $D/caches.new $D/caches.json
      echo "$arg" >> $D/deleted
    else echo "X Could not find a cache matching $arg" >&2; exit 1; fi ;;
  "pr list") show < $D/prs.json ;;
  "api "*) show < $D/owners.json ;;
  *) echo "gh: unknown $cmd" >&2; exit 1 ;;
esac
""" % DATA)


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(text if isinstance(text, bytes) else text.encode())


def steps(name):
    """[(env, shell text)] of the run steps of a workflow's one job."""
    with open(os.path.join(load.REPO, ".github", "workflows", name)) as f:
        jobs = yaml.safe_load(f)["jobs"]
    job = next(iter(jobs.values()))
    return [(dict(job.get("env") or {}, **(s.get("env") or {})), s["run"]) for s in job["steps"] if "run" in s]


CLEANUP, PUBLISH = steps("cache_cleanup.yml"), steps("coverage_pages.yml")


def expand(text, context):
    return re.sub(r"\$\{\{\s*([\w.]+)\s*\}\}", lambda m: str(context[m.group(1)]), str(text))


def run_step(sim, step, context, extra, role):
    """Runs one step as the runner does; returns (status, stdout, stderr, fired)."""
    env, text = step
    put(os.path.join(place.dir, "step.sh"), expand(text, context))
    full = dict(ENV, **helpers.env, SIM_EVENT=EVENT, GITHUB_REPOSITORY="helly25/mbo", **{k: expand(v, context) for k, v in env.items()}, **extra)
    helpers.arm(*role)
    status, out, err, calls = release_sim.script(["--noprofile", "--norc", "-e", "-o", "pipefail", os.path.join(place.dir, "step.sh")], WORK, full)
    sim.ev("  commands: %d" % len(calls))
    if helpers.shm.fired:
        sim.fault("%s %s%s" % (role[0], faultbox.HELPER_ACTIONS[role[2]], " every time" if role[1] < 0 else ""))
    sim.ev("  -> %s" % ("killed" if status < 0 else "status %d" % status))
    return status, out, err, bool(helpers.shm.fired)


def draw_role(sim, names, actions=(1, 2, 2, 2, 3, 4, 5, 6, 7, 8)):
    if sim.chance(1, 3):
        return ("", 0, 0)
    return (sim.pick(names), sim.pick([-1, 0, 0, 0, 1, 1, 2, 3, 4, 6, 8]), sim.pick(actions))


# ---- Cache cleanup ---------------------------------------------------------------------------------------------------
BRANCHES = ["main", "feature", "feature-2", "fix/main", "main-2", "mainline", "user/feature"]
HOUR = 3600


def at(seconds):
    import datetime
    return datetime.datetime(2026, 1, 20, 12, 0, 0) + datetime.timedelta(seconds=seconds)


def cache_world(sim):
    caches, ident = [], 1000
    instants = sim.shuffle(list(range(1, 60)))
    for i in range(sim.choose(14)):
        ref = "refs/heads/" + sim.pick(["main", "main"] + BRANCHES)
        prefix = sim.pick(["clang-tidy", "gcc-14-opt", "gcc", "repo-gcc"])
        key = "%s-%s-%040x" % (prefix, ref, i + 7) if prefix[:4] != "repo" else "%s-%040x" % (prefix, i + 7)
        ident += 1 + sim.choose(900)
        caches.append({"id": ident, "key": key, "ref": ref, "createdAt": at(-60 * instants[i]).strftime("%Y-%m-%dT%H:%M:%S") + sim.pick(["Z", "Z", ".5Z", ".123456Z"])})
    return sim.shuffle(caches)


def load_caches():
    with open(os.path.join(DATA, "caches.json")) as f:
        return json.load(f)


def family(cache):
    """The key prefix a cache of main belongs to, None when its key does not name its ref."""
    mark = "-%s-" % cache["ref"]
    return cache["key"][: cache["key"].index(mark) + len(mark) - 1] if mark in cache["key"] else None


def instant(cache):
    day, frac = re.fullmatch(r"([^.Z]*)\.?(\d*)Z", cache["createdAt"]).groups()
    return day, frac.ljust(9, "0")


def superseded(caches):
    """Caches of main that are not the newest of their family (families are key prefixes: one may contain another)."""
    out = []
    for c in caches:
        mine = [d for d in caches if family(c) and family(d) == family(c)]
        if c["ref"] == "refs/heads/main" and mine and max(mine, key=instant) is not c:
            out.append(c["id"])
    return out


def cleanup(sim):
    shutil.rmtree(WORK, ignore_errors=True)
    shutil.rmtree(TMP, ignore_errors=True)
    os.mkdir(WORK)
    os.mkdir(TMP)
    os.symlink(os.path.join(load.REPO, "tools"), os.path.join(WORK, "tools"))
    deleted_path = os.path.join(DATA, "deleted")
    if os.path.exists(deleted_path):
        os.unlink(deleted_path)
    caches = cache_world(sim)
    put(os.path.join(DATA, "caches.json"), json.dumps(caches))
    put(os.path.join(DATA, "now"), "2026-01-20 12:00:00")
    head = sim.pick(BRANCHES)
    context = {"github.head_ref": head, "github.repository": "helly25/mbo", "github.event.pull_request.number": 17, "secrets.CACHE_ACCESS": "token"}
    newer = {"id": 99999, "key": "gcc-refs/heads/main-%040x" % 999, "ref": "refs/heads/main", "createdAt": "2026-01-20T12:00:01Z"}
    put(EVENT, "#!/bin/sh\nPATH=/usr/bin:/bin\njq -c '[%s]+.' %s/caches.json > %s/ev.json && mv %s/ev.json %s/caches.json\n" % (json.dumps(newer), DATA, DATA, DATA, DATA))
    os.chmod(EVENT, 0o755)
    old = sim.chance(1, 2)
    prs = []
    if old:
        for i in range(sim.choose(7)):
            age = sim.pick([600, 3 * HOUR, 4 * HOUR - 130, 4 * HOUR + 130, 30 * HOUR, 200 * HOUR, 14 * 24 * HOUR - 130, 14 * 24 * HOUR + 130, 400 * HOUR])
            prs.append({"headRefName": sim.pick(BRANCHES), "closedAt": at(-age).strftime("%Y-%m-%dT%H:%M:%SZ"), "number": 100 - i})
    put(os.path.join(DATA, "prs.json"), json.dumps(prs))
    sim.ev("cleanup of %s; %d caches" % ("old pull requests " + " ".join("%s@%s" % (p["headRefName"], p["closedAt"]) for p in prs) if old else head, len(caches)))
    role = draw_role(sim, ["gh cache", "gh cache", "gh cache", "gh pr" if old else "python3 tools/cache_cleanup.py"] + (["date -Iminutes"] if old else []))
    status, out, err, fired = run_step(sim, CLEANUP[1 if old else 0], context, {}, role)
    left = {c["id"] for c in load_caches()}
    gone = [c for c in caches if c["id"] not in left]
    sim.ev("  deleted: " + " ".join("%s:%s" % (c["ref"][11:], c["key"].split("-refs")[0]) for c in gone))
    sim.nontrivial = fired or bool(gone)
    sim.state("%s %s %d %d" % ("old" if old else head, role if fired else "", status, len(gone)))

    if old:
        due = {p["headRefName"] for p in prs if at(-14 * 24 * HOUR).strftime("%Y-%m-%dT%H:%M:%SZ") < p["closedAt"] < at(-4 * HOUR).strftime("%Y-%m-%dT%H:%M:%SZ")}
        allowed = {c["id"] for c in caches if c["ref"][11:] in due - {"main"}}
        want = allowed
    elif head == "main":
        every = caches + ([newer] if fired and role[2] == 6 else [])
        allowed = want = set(superseded(every))
        sim.check({c["id"] for c in every if c["ref"] == "refs/heads/main" and family(c)} - want <= left, "newest", "the newest cache of a key prefix of main is deleted")
    else:
        allowed = want = {c["id"] for c in caches if c["ref"] == "refs/heads/" + head}
    for c in gone:
        sim.check(c["id"] in allowed, "foreign", "cleaning up %s deleted cache %s of %s" % ("branches %s" % sorted(due) if old else head, c["key"], c["ref"]))
    if not fired or role[2] == 6:
        sim.check(status == 0, "status", "status %d: %s" % (status, err[-300:]))
        if not fired:
            sim.check(want == {c["id"] for c in gone}, "left-over", "%d caches that should go are left" % len(want - {c["id"] for c in gone}))
        sim.probe("cleanup of " + ("old pull requests" if old else "main" if head == "main" else "a branch"))
        if want and fired:
            sim.probe("a cache saved meanwhile")
        return
    if role[2] in (7, 8):
        sim.probe("cancelled")
        return
    if role[0] == "gh cache":
        sim.check(status == 0, "status", "the cache service fails and the workflow with it: status %d: %s" % (status, err[-300:]))
        told = "::warning" in out
        missed = want - {c["id"] for c in gone}
        if role[1] >= 0 and not old and head != "main":
            # one call fails: the list (nothing goes) or one deletion (the others still go)
            sim.check(len(missed) <= (len(want) if role[1] == 0 else 1), "gives-up", "%d of %d caches are left although one deletion failed" % (len(missed), len(want)))
        sim.check(told or not missed, "silent", "%d caches are left and nothing says so: %s" % (len(missed), out[-300:]))
        sim.probe("service failure reported")
    elif role[0] in ("gh pr", "python3 tools/cache_cleanup.py"):
        sim.check(status != 0 or "::warning" in out or not want - {c["id"] for c in gone}, "silent", "caches are left and nothing says so")


# ---- Publishing coverage ---------------------------------------------------------------------------------------------
VALID = re.compile(r"(main|pr/[1-9][0-9]*|tag/[0-9]+\.[0-9]+\.[0-9]+)")


def summary(i):
    one = {"percent": 100.0 * i / 64, "covered": i, "total": 64}
    row = {m: one for m in ("lines", "functions", "branches")}
    return {"schema": 1, "measurements": {"overall": row}, "minimums": {}, "targets": {}}


def meta(sim, target, serial):
    return {"schema": 1, "target": target, "coverage": summary(serial)["measurements"]["overall"],
            "source": {"created_at": "2026-01-%02dT00:00:00Z" % sim.pick([3, 10, 17]), "started_at": "2026-01-18T00:00:00Z", "completed_at": "2026-01-18T01:00:00Z",
                       "run_id": sim.pick([9, 70, 700]), "run_attempt": 1 + sim.choose(2), "head_sha": "%040x" % (serial * 77)}}


def git(*a, cwd=None, inp=None):
    r = subprocess.run([GIT] + list(a), cwd=cwd or place.dir, env=PLAIN, capture_output=True, input=inp)
    if r.returncode:
        raise RuntimeError("git %s: %s" % (" ".join(a), r.stderr))
    return r.stdout


def pages():
    """The retained branch on origin: {path: bytes}."""
    with tarfile.open(fileobj=io.BytesIO(git("--git-dir=" + ORIGIN, "archive", "coverage-pages"))) as t:
        return {m.name: t.extractfile(m).read() for m in t.getmembers() if m.isfile()}


def tree(root):
    out = {}
    for d, _, names in os.walk(root):
        for n in names:
            p = os.path.join(d, n)
            if "/.git/" not in p:
                with open(p, "rb") as f:
                    out[os.path.relpath(p, root)] = f.read()
    return out


def settle(root, when):
    for d, _, names in os.walk(root):
        if "/.git" not in d:
            for n in names:
                os.utime(os.path.join(d, n), (when, when))


def publish(sim):
    for d in (ORIGIN, WORK, TMP):
        shutil.rmtree(d, ignore_errors=True)
    os.mkdir(WORK)
    os.mkdir(TMP)
    # the retained branch
    before = {"README.md": b"retained\n", "coverage/index.html": b"old overview\n"}
    serial = 1
    for target in sim.shuffle(["main", "pr/7", "pr/77", "tag/1.0.0", "tag/0.9.0"])[: sim.choose(5)]:
        serial += 1
        m = meta(sim, target, serial)
        before["coverage/%s/coverage-summary.json" % target] = json.dumps(summary(serial)).encode()
        before["coverage/%s/coverage-meta.json" % target] = json.dumps(m).encode()
        before["coverage/%s/index.html" % target] = b"page %d\n" % serial
        for i in range(sim.choose(3)):
            before["coverage/%s/lcov/f%d.html" % (target, i)] = b"old %d\n" % i
        if sim.chance(1, 6):
            del before["coverage/%s/coverage-meta.json" % target]  # retained before there was metadata
    for number in sim.shuffle(["3", "12"])[: sim.pick([0, 0, 1, 2])]:  # retained before pull requests had a directory of their own
        serial += 1
        before["coverage/pr%s/coverage-summary.json" % number] = json.dumps(summary(serial)).encode()
        before["coverage/pr%s/index.html" % number] = b"legacy %s\n" % number.encode()
    damaged = [n for n in before if n.endswith("/coverage-meta.json")] if sim.chance(1, 8) else []
    for n in damaged[:1]:
        before[n] = before[n][: len(before[n]) // 2]
    stream = b"commit refs/heads/coverage-pages\ncommitter s <s@x> 1700000000 +0000\ndata 5\nstart"
    for n, text in sorted(before.items()):
        stream += b"\nM 100644 inline %s\ndata %d\n%s" % (n.encode(), len(text), text)
    git("init", "-q", "--bare", "-b", "coverage-pages", ORIGIN)
    git("--git-dir=" + ORIGIN, "fast-import", "--quiet", "--force", inp=stream + b"\n")
    # the event
    workflow = sim.pick(["Test", "Test", "Test", "Release"])
    branch = sim.pick(["1.0.0", "1.2.3", "1.0.0", "0.9.0", "v1.2.3", "1.2.3-rc1", "1.2"]) if workflow == "Release" else sim.pick(["main", "main", "feature", "main-2"])
    owners = [] if sim.chance(1, 6) else [{"number": n} for n in sim.shuffle([7, 77, 3, 5])[: 1 + sim.choose(2)]]
    put(os.path.join(DATA, "owners.json"), json.dumps(owners))
    serial += 1
    m = meta(sim, "", serial)
    source = m["source"]
    context = {"github.token": "t", "github.event.workflow_run.head_branch": branch, "github.event.workflow_run.head_sha": source["head_sha"], "github.event.workflow_run.name": workflow,
               "github.event.workflow_run.updated_at": source["completed_at"], "github.event.workflow_run.created_at": source["created_at"], "github.event.workflow_run.id": source["run_id"],
               "github.event.workflow_run.run_attempt": source["run_attempt"], "github.event.workflow_run.run_started_at": source["started_at"]}
    resolved = "tag/" + branch if workflow == "Release" else "main" if branch == "main" else "pr/%d" % owners[0]["number"] if owners else None
    sim.ev("publish %s of %s by run %d attempt %d created %s; owners %s" % (workflow, branch, source["run_id"], source["run_attempt"], source["created_at"], owners))
    output = os.path.join(place.dir, "github_output")
    put(output, "")
    role = draw_role(sim, ["gh api"], (1, 2, 3, 4, 5, 7)) if sim.chance(1, 6) else ("", 0, 0)
    status, out, err, fired = run_step(sim, PUBLISH[0], context, {"GITHUB_OUTPUT": output}, role)
    with open(output) as f:
        said = dict(l.split("=", 1) for l in f.read().splitlines())
    if status != 0:
        sim.check(fired, "resolve", "the destination of a finished run cannot be resolved: %s" % err[-300:])
        return
    sim.check(said.get("publish") == ("true" if resolved else "false"), "destination", "publish=%s for %s of %s owned by %s" % (said.get("publish"), workflow, branch, owners))
    if not resolved:
        sim.check("target" not in said, "destination", "a branch nobody asks to merge claims %s" % said.get("target"))
        sim.probe("no destination")
        return
    sim.check(said.get("target") == resolved, "destination", "resolved %s, not %s" % (said.get("target"), resolved))
    context["steps.target.outputs.target"] = said["target"]
    # what the run uploaded says
    claim = resolved if sim.chance(5, 6) else sim.pick(["main", "pr/7", "pr/0", "../../x", "pr/7/../../x", "tag/1.0.0", "", "main\nx", "pr/07", "mainx"])
    trailing = sim.pick(["\n", "\n", ""])
    report = {"coverage-summary.json": json.dumps(summary(serial)).encode(), "index.html": b"page %d\n" % serial}
    for i in range(sim.choose(3)):
        report["lcov/f%d.html" % i] = sim.pick([b"new %d\n", b"old %d\n"]) % i
    for n, text in report.items():
        put(os.path.join(WORK, "report/coverage-html", n), text)
    put(os.path.join(WORK, "report/coverage-target.txt"), claim + trailing)
    os.mkdir(os.path.join(WORK, "source"))
    os.symlink(os.path.join(load.REPO, "tools"), os.path.join(WORK, "source/tools"))
    git("clone", "-q", "-b", "coverage-pages", ORIGIN, os.path.join(WORK, "site"))
    # the runner's clock: the checkout and the download may happen in the same second
    settle(os.path.join(WORK, "site"), 1700000000)
    settle(os.path.join(WORK, "report"), 1700000000 + sim.pick([0, 5]))
    put(EVENT, "#!/bin/sh\nPATH=/usr/bin:/bin GIT_DIR=%s GIT_AUTHOR_NAME=o GIT_AUTHOR_EMAIL=o@x GIT_COMMITTER_NAME=o GIT_COMMITTER_EMAIL=o@x\nexport PATH GIT_DIR GIT_AUTHOR_NAME GIT_AUTHOR_EMAIL GIT_COMMITTER_NAME GIT_COMMITTER_EMAIL\nb=$(echo elsewhere | git hash-object -w --stdin) && "
        "export GIT_INDEX_FILE=%s/ev.index && git read-tree coverage-pages && git update-index --add --cacheinfo 100644,$b,coverage/pr/555/index.html && git update-ref refs/heads/coverage-pages $(git commit-tree -p coverage-pages -m other $(git write-tree))\n" % (ORIGIN, TMP))
    os.chmod(EVENT, 0o755)
    role = draw_role(sim, ["git -C", "git -C", "git -C", "git -C", "python3 source/tools/coverage_index.py", "python3 source/tools/coverage_index.py", "rsync --archive", "rsync --archive", "mkdir -p", "find site/coverage"])
    sim.ev("report claims %r; %d files; branch holds %d" % (claim, len(report), len(before)))
    old_head = git("--git-dir=" + ORIGIN, "rev-parse", "coverage-pages")
    status, out, err, fired = run_step(sim, PUBLISH[1], context, {"GITHUB_OUTPUT": output}, role)
    after = pages()
    elsewhere = after.pop("coverage/pr/555/index.html", None)
    sim.check(elsewhere is not None or not fired or role[2] != 6, "lost", "what somebody else pushed is gone")
    if elsewhere is not None:
        sim.probe("somebody else pushed")
    sim.nontrivial = fired or claim != resolved or any("/pr%s/" % n in p for p in before for n in ("3", "12"))
    legacy = {"coverage/pr%s/" % n: "coverage/pr/%s/" % n for n in ("3", "12")}
    want = {}
    for n, text in before.items():
        new = next((to + n[len(fr):] for fr, to in legacy.items() if n.startswith(fr)), n)
        want[new] = text
    mine = "coverage/%s/" % resolved
    current = want.get(mine + "coverage-meta.json")
    key = lambda s: (s["created_at"], s["run_id"], s["run_attempt"])  # noqa: E731
    if damaged:
        sim.check(status != 0, "damaged", "exit 0 although %s cannot be read" % damaged[0])
        sim.check(after == before, "damaged", "%s cannot be read and the branch is changed" % damaged[0])
        sim.probe("damaged metadata noticed")
        return
    accepted = current is None or key(source) >= key(json.loads(current)["source"])
    if accepted:
        want = {n: t for n, t in want.items() if not n.startswith(mine)}
        want.update({mine + n: t for n, t in report.items()})
    sim.state("%s %s %s %d %s" % (resolved.split("/")[0], claim == resolved, role if fired else "", status, accepted))

    def complete(have):
        """The first difference between a branch and the one this report should lead to; None when there is none."""
        rest = {n: t for n, t in have.items() if n != "coverage/index.html" and not n.endswith("/coverage-meta.json")}
        plain = {n: t for n, t in want.items() if n != "coverage/index.html" and not n.endswith("/coverage-meta.json")}
        if rest != plain:
            return "files %s" % sorted(n for n in set(rest) | set(plain) if rest.get(n) != plain.get(n))
        reports = sorted(n[: -len("coverage-summary.json")] for n in plain if n.endswith("/coverage-summary.json"))
        if sorted(n for n in have if n.endswith("/coverage-meta.json")) != [r + "coverage-meta.json" for r in reports]:
            return "metadata of %s for reports %s" % (sorted(n for n in have if n.endswith("/coverage-meta.json")), reports)
        links = set(re.findall(r'<td><a href="((?:main|pr/|tag/)[^"]*)"', have["coverage/index.html"].decode()))
        if links != {r[len("coverage/"):] for r in reports}:
            return "an overview of %s for reports %s" % (sorted(links), reports)
        for r in reports:
            got = json.loads(have[r + "coverage-meta.json"])
            if r == mine and accepted:
                expect = dict(m, target=resolved)
            elif r + "coverage-meta.json" in want:
                expect = json.loads(want[r + "coverage-meta.json"])
            else:
                expect = {"schema": 1, "target": r[len("coverage/"):-1], "coverage": json.loads(have[r + "coverage-summary.json"])["measurements"]["overall"]}
                if got.pop("source")["run_id"] != 0:
                    return "a run for the legacy report %s" % r
            if got != expect:
                return "metadata of %s: %s instead of %s" % (r, got, expect)
        return None

    refs = git("--git-dir=" + ORIGIN, "for-each-ref", "--format=%(refname)").decode().split()
    sim.check(refs == ["refs/heads/coverage-pages"], "refs", "the repository has %s" % refs)
    sim.check(subprocess.run([GIT, "--git-dir=" + ORIGIN, "merge-base", "--is-ancestor", old_head.decode().strip(), "coverage-pages"], env=PLAIN).returncode == 0, "history", "retained history is gone")
    valid = VALID.fullmatch(claim) and claim == resolved
    if not valid:
        sim.check(status != 0, "accepted", "a report that claims %r for %s is accepted" % (claim, resolved))
        sim.check(after == before, "pushed", "a report that claims %r changes the retained branch" % claim)
        sim.probe("refused")
        return
    if status == 0:
        problem = complete(after)
        sim.check(problem is None, "incomplete", "exit 0, but the retained branch has %s" % problem)
        public, site = tree(os.path.join(WORK, "public")), {n: t for n, t in after.items() if n.startswith("coverage/")}
        sim.check(public == site, "public", "what is deployed differs from what is retained: %s" % sorted(n for n in set(public) | set(site) if public.get(n) != site.get(n)))
        sim.probe("published" if accepted else "older report ignored")
        if legacy.keys() & {"/".join(n.split("/")[:2]) + "/" for n in before}:
            sim.probe("legacy directory moved")
    else:
        sim.check(fired, "status", "status %d without a fault: %s" % (status, err[-400:]))
        if after != before:
            problem = complete(after)
            sim.check(problem is None, "torn", "status %d and the retained branch has %s" % (status, problem))
        sim.probe("failed, branch intact")


def body(sim):
    (cleanup if sim.chance(1, 2) else publish)(sim)


if __name__ == "__main__":
    sys.exit(core.main("c36", body))
