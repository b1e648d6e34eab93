"""C34: tools/trigger_release.sh and .github/workflows/release_prep.sh against a real git origin while commands fail,
the script is killed, and other people push.  gh, gpg and the network are stand-ins; every command the scripts call can fail."""
import os, re, shutil, signal, subprocess, sys, tarfile, tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core, faultbox, load  # noqa: E402

TRIGGER = os.path.join(load.REPO, "tools", "trigger_release.sh")
PREP = os.path.join(load.REPO, ".github", "workflows", "release_prep.sh")
GIT = "/usr/bin/git"


class Place:
    """What Helpers needs of a Box."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="c34.", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
        self.so = os.path.join(os.environ.get("SIM_BUILD", os.path.join(faultbox.VERIF, "build")), "x")
        os.makedirs(os.path.dirname(self.so), exist_ok=True)
        import atexit
        owner = os.getpid()
        atexit.register(lambda: os.getpid() == owner and shutil.rmtree(self.dir, ignore_errors=True))


place = Place()
helpers = faultbox.Helpers(place, ["git", "gh", "gpg", "patch", "mv", "sed", "awk", "grep", "cat", "tee", "which", "head", "mktemp", "rm"])
ORIGIN, WORK, OTHER, HOME, TMP = (os.path.join(place.dir, n) for n in ("origin.git", "work", "other", "home", "tmp"))
TEMPLATE = os.path.join(place.dir, "template")
ENV = {"HOME": HOME, "GIT_CONFIG_NOSYSTEM": "1", "GIT_TERMINAL_PROMPT": "0", "LC_ALL": "C.UTF-8", "TZ": "UTC", "TMPDIR": TMP,
       "GIT_AUTHOR_DATE": "2026-01-01T00:00:00Z", "GIT_COMMITTER_DATE": "2026-01-01T00:00:00Z"}
SIM_ENV = dict(ENV, **helpers.env, SIM_EVENT=os.path.join(place.dir, "event"))
PLAIN = dict(ENV, PATH="/usr/local/bin:/usr/bin:/bin", GIT_CONFIG_GLOBAL=os.path.join(HOME, ".gitconfig"))

helpers.stand_in("gpg", """#!/bin/sh
/usr/bin/cat >/dev/null
echo "-----BEGIN PGP SIGNATURE-----"
echo
echo "simulated"
echo "-----END PGP SIGNATURE-----"
echo "[GNUPG:] SIG_CREATED D 1 8 00 1 x" >&2
""")
# pull requests: `create` needs the pushed branch, `merge --admin` squashes it onto main when main did not move
helpers.stand_in("gh", """#!/bin/bash
unset SIM_HELPER; PATH=/usr/bin:/bin
G="git --git-dir=%s"
case "$1 $2" in
  "pr create")
    b="$(git symbolic-ref --short HEAD)"
    $G rev-parse -q --verify "refs/heads/$b" >/dev/null || { echo "no such branch"; exit 1; }
    echo "$b" >> %s/prs; echo "https://github.com/helly25/mbo/pull/17" ;;
  "pr ready"|"pr review") exit 0 ;;
  "pr merge")
    case " $* " in *" --auto "*) echo "$3" >> %s/auto; exit 0 ;; esac
    [ -e %s/protected ] && exit 1
    t="$($G rev-parse "refs/heads/$3^{tree}")" && m="$($G rev-parse refs/heads/main)" || exit 1
    [ "$($G merge-base "$m" "refs/heads/$3")" = "$m" ] || exit 1
    c="$($G commit-tree "$t" -p "$m" -m "squash")" && $G update-ref refs/heads/main "$c" && $G update-ref -d "refs/heads/$3" ;;
  *) exit 1 ;;
esac
""" % (ORIGIN, place.dir, place.dir, place.dir))

MODULE = """module(
    name = "helly25_mbo",
    version = "%s",
)

bazel_dep(name = "abseil-cpp", version = "20260107.1")
bazel_dep(name = "old", version = "0.0.1")
include("//bazelmod:dev.MODULE.bazel")
include("//bazelmod:llvm.MODULE.bazel")
"""
PATCH = """--- a/MODULE.bazel
+++ b/MODULE.bazel
@@ -5,5 +5,5 @@
 
 bazel_dep(name = "abseil-cpp", version = "20260107.1")
 bazel_dep(name = "old", version = "0.0.1")
-include("//bazelmod:dev.MODULE.bazel")
-include("//bazelmod:llvm.MODULE.bazel")
+# include("//bazelmod:dev.MODULE.bazel")
+# include("//bazelmod:llvm.MODULE.bazel")
"""
NOTES = "# %s\n\n- First note of %s.\n- Second `note` with $dollar and \"quotes\".\n\n# 0.9.0\n\n- Old note.\n"


def git(*a, cwd=None, check=True, inp=None):
    r = subprocess.run([GIT] + list(a), cwd=cwd or WORK, env=PLAIN, capture_output=True, text=True, input=inp)
    if check and r.returncode:
        raise RuntimeError("git %s: %s" % (" ".join(a), r.stderr))
    return r.stdout.strip()


def write(rel, text, where=None):
    p = os.path.join(where or WORK, rel)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w") as f:
        f.write(text)


def prepare_template():
    for d in (HOME, TMP, TEMPLATE):
        os.mkdir(d)
    write(".gitconfig", "[user]\n name = Sim\n email = sim@example.com\n signingkey = x\n[gpg]\n program = gpg\n[init]\n defaultBranch = main\n[advice]\n detachedHead = false\n"
          "[push]\n autoSetupRemote = false\n[gc]\n auto = 0\n[maintenance]\n auto = false\n", HOME)
    git("init", "-q", "--bare", "-b", "main", ORIGIN, cwd=place.dir)
    git("clone", "-q", ORIGIN, WORK, cwd=place.dir, check=False)
    git("checkout", "-q", "-b", "main", check=False)
    write("MODULE.bazel", MODULE % "0.9.0")
    write("CHANGELOG.md", "# 0.9.0\n\n- Old note.\n")
    write(".gitignore", "/pr_create_output.txt\n")
    write(".gitattributes", "*.x text\n")
    write("BUILD.bazel", "dev stuff\n")
    write("mbo/a.cc", "int a;\n")
    write("mbo/hash/measurements/m.txt", "m\n")
    write("tools/t.sh", "echo\n")
    write("tools/header.txt", "# SPDX header\n")
    write(".github/workflows/bazelmod.patch", PATCH)
    git("add", "-A")
    git("commit", "-q", "-m", "start")
    git("tag", "-a", "0.9.0", "-m", "old release")
    git("push", "-q", "-u", "origin", "main", "--tags")
    for n in ("origin.git", "work", "home"):
        os.rename(os.path.join(place.dir, n), os.path.join(TEMPLATE, n))


prepare_template()


def fresh():
    for n in ("origin.git", "work", "home", "other"):
        p = os.path.join(place.dir, n)
        shutil.rmtree(p, ignore_errors=True)
        if n != "other":
            subprocess.run(["/usr/bin/cp", "-a", os.path.join(TEMPLATE, n), p], check=True)
    for n in ("prs", "auto", "protected", "event"):
        p = os.path.join(place.dir, n)
        if os.path.exists(p):
            os.unlink(p)
    shutil.rmtree(TMP, ignore_errors=True)
    os.mkdir(TMP)


def refs(where):
    out = {}
    for l in git("for-each-ref", "--format=%(refname) %(objectname)", cwd=where).splitlines():
        n, o = l.split()
        out[n] = o
    return out


def script(argv, cwd, env):
    """Runs a script as a process group leader; returns (status, stdout, stderr, calls)."""
    p = subprocess.Popen(["/usr/bin/bash"] + argv, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
    out, err = p.communicate(timeout=120)
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    calls = helpers.calls()
    return p.returncode, out, err, calls


SEQUENTIAL = ("git", "gh", "gpg", "patch", "mv", "mktemp", "rm")  # the others run next to each other in pipelines


def note(sim, calls, role, status):
    sim.ev("  commands: " + ", ".join(c for c in calls if c.split()[0] in SEQUENTIAL))
    if helpers.shm.fired:
        sim.fault("%s %s%s" % (role[0], faultbox.HELPER_ACTIONS[role[2]], " every time" if role[1] < 0 else ""))
    sim.ev("  -> %s" % ("killed" if status < 0 else "status %d" % status))


def patch_of(version):
    return [int(x) for x in version.split(".")]


FLAWS = [""] * 26 + ["branch", "behind", "longer", "detached", "behind", "ahead", "unstaged", "staged", "untracked", "module", "changelog", "argument", "both", "format", "tag-local", "tag-remote", "patch", "arguments"]


def setup(sim):
    """One world: what is on origin, what the maintainer has.  Returns (arguments, version, flaw)."""
    fresh()
    version = sim.pick(["0.13.3", "1.0.0", "0.9.1", "10.20.30", "0.9.10", "2.0.9"])
    flaw = sim.pick(FLAWS)
    module, log, arg = version, version, version
    if flaw == "module":
        module = sim.pick(["0.13.4", "0.13.30", "1.13.3"])
    if flaw == "changelog":
        log = sim.pick(["0.13.2", "1.0", "10.0.0"])
    if flaw == "argument":
        arg = sim.pick(["0.13.9", "3.0.0", "0.13"])
    if flaw == "both":
        module = log = "7.7.7"
    if flaw == "longer":
        module = log = version + sim.pick(["0", "1", ".1", "-rc1"])
    if flaw == "format":
        version = module = log = arg = sim.pick(["v1.2.3", "1.2", "1.2.3-rc1", "1.2.3.4", "1.2.x"])
    text = MODULE % module
    same = ""
    if sim.chance(1, 4):  # a dependency happens to have the same version
        same = 'bazel_dep(name = "same", version = "%s")\n' % module
        text = text.replace("bazel_dep", same + "bazel_dep", 1)
    write("MODULE.bazel", text.replace("dev.MODULE", "develop.MODULE") if flaw == "patch" else text)
    write("CHANGELOG.md", NOTES % (log, log))
    if sim.chance(1, 2):
        write("mbo/b.cc", "int b;\n")
    git("add", "-A")
    git("commit", "-q", "-m", "prepare")
    git("push", "-q", "origin", "main")
    git("fetch", "-q", "origin")
    others = []
    for t in sim.shuffle(["0.9.1", "0.9.10", "10.13.3", "10.20.3", "v0.13.3", "1.0.0-rc1", "0.13.2"])[: sim.choose(3)]:
        if t != version and "format" != flaw:
            git("tag", "-a", t, "-m", "other", "HEAD~1")
            git("push", "-q", "origin", t)
            others.append(t)
    stray = sim.chance(1, 5)
    if stray:
        git("tag", sim.pick(["scratch", "99.0.0", "backup/x"]), "HEAD~1")
    if sim.chance(1, 5):
        git("branch", sim.pick(["private", "wip/secret"]), "HEAD~1")
    if flaw == "branch":
        git("checkout", "-q", "-b", sim.pick(["feature", "main2"]))
    if flaw == "detached":
        git("checkout", "-q", "--detach")
    if flaw == "behind":
        someone_pushes(0)
    if flaw == "ahead":
        write("mbo/ahead.cc", "int ahead;\n")
        git("add", "-A")
        git("commit", "-q", "-m", "local only")
    if flaw == "unstaged":
        write("mbo/a.cc", "int changed;\n")
    if flaw == "staged":
        write("mbo/a.cc", "int changed;\n")
        git("add", "-A")
    if flaw == "untracked":
        write("new.txt", "x\n")
    if flaw in ("tag-local", "tag-remote"):
        git("tag", "-a", version, "-m", "already", "HEAD~1")
        if flaw == "tag-remote":
            git("push", "-q", "origin", version)
            if sim.chance(1, 2):
                git("tag", "-d", version)
    if sim.chance(1, 4):
        open(os.path.join(place.dir, "protected"), "w").close()
    args = [arg]
    if flaw == "arguments":
        args = sim.pick([[], [arg, "x"]])
    return args, version, flaw, same


def someone_pushes(kind, version="", event=None):
    """kind 0: a commit on main; 1: the same tag; both as another clone does.  With `event` it becomes a script to run later."""
    lines = ["cd %s" % place.dir, "export PATH=/usr/bin:/bin", "git clone -q %s other" % ORIGIN, "cd other"]
    if kind == 0:
        lines += ["echo other >> mbo/other.cc", "git add -A", "git commit -q -m other", "git push -q origin main && touch pushed"]
    elif kind == 1:
        lines += ["git tag -a '%s' -m theirs HEAD~1" % version, "git push -q origin '%s'" % version]
    else:
        lines = ["cd %s" % WORK, "echo broken > .git/index"]
    text = "#!/bin/sh\n" + "\n".join(lines) + "\n"
    path = event or os.path.join(place.dir, "now")
    with open(path, "w") as f:
        f.write(text)
    os.chmod(path, 0o755)
    if not event:
        subprocess.run([path], env=PLAIN, check=True, capture_output=True)


def show(where, rev, path):
    return subprocess.run([GIT, "show", "%s:%s" % (rev, path)], cwd=where, env=PLAIN, capture_output=True, text=True).stdout


ROLES = None


def trigger(sim):
    with sim.span():
        args, version, flaw, same = setup(sim)
    before, head = refs(ORIGIN), git("rev-parse", "HEAD")
    local_before = refs(WORK)
    sim.ev("trigger_release.sh %s; %s" % (" ".join(args), flaw or "ready"))
    role = ("", 0, 0)
    event = None
    if sim.chance(2, 3):
        name = sim.pick(ROLES).replace("0.13.3", version)
        if flaw == "behind" and sim.chance(1, 2):
            name = "git fetch" if "git fetch" in ROLES else next((r for r in ROLES if r.startswith("git fetch")), "git fetch")
        name = name[:name.index(" ") + 41]
        action = 1 + sim.choose(8)
        nth = 0 if action == 6 else sim.pick([0, 0, 0, 0, 1, 2])
        if name.split()[0] in ("git", "gh", "gpg", "patch", "mv") and sim.chance(1, 4):
            nth = -1 if action in (1, 2, 5) else nth
        if action == 6:
            event = sim.choose(3)
            someone_pushes(event, version, os.path.join(place.dir, "event"))
        role = (name, nth, action)
        if action in (7, 8) and name.split()[0] not in SEQUENTIAL:
            role = (name, nth, 1)
    helpers.arm(*role)
    status, out, err, calls = script([TRIGGER] + args, WORK, SIM_ENV)
    fired = bool(helpers.shm.fired)
    note(sim, calls, role, status)
    if fired and role[2] == 6:
        sim.ev("  meanwhile: " + ("somebody pushes to main", "somebody publishes the tag", "the index is damaged")[event])
        sim.fault(("concurrent push", "concurrent tag", "damaged index")[event])
    sim.nontrivial = fired or bool(flaw)
    after = refs(ORIGIN)
    tag = "refs/tags/" + version
    sim.state("%s %s %s %s" % (flaw, role if fired else "", status, sorted(set(after) - set(before))))

    # whatever happened: nothing published is moved or removed, and only this release's refs appear
    mine = after.get(tag) if tag not in before else None
    theirs = fired and role[2] == 6 and event == 1
    if mine and theirs and "theirs" in git("cat-file", "-p", mine, cwd=ORIGIN):
        mine = None
    for n, o in before.items():
        if n == "refs/heads/main":
            continue
        sim.check(after.get(n) == o, "moved", "%s was %s and is %s" % (n, o, after.get(n)))
    nxt = None
    if re.fullmatch(r"\d+\.\d+\.\d+", version):
        a, b, c = patch_of(version)
        nxt = "%d.%d.%d" % (a, b, c + 1)
    allowed = {tag} | ({"refs/heads/chore/bump_version_to_" + nxt} if nxt else set())
    sim.check(git("merge-base", before["refs/heads/main"], after["refs/heads/main"], cwd=ORIGIN) == before["refs/heads/main"], "moved", "main lost commits")
    if os.path.exists(os.path.join(OTHER, "pushed")):
        sim.check("other" in git("log", "--format=%s", "refs/heads/main", cwd=ORIGIN).split("\n"), "moved", "somebody's push to main is gone")
    auto = os.path.join(place.dir, "auto")
    if os.path.exists(auto):
        sim.check(nxt and set(open(auto).read().split()) <= {"chore/bump_version_to_" + nxt}, "published", "asked to merge " + open(auto).read())
    sim.check(set(after) - set(before) <= allowed, "published", "also published: %s" % sorted(set(after) - set(before) - allowed))

    # a published tag is exactly the verified state
    if mine:
        sim.check(not flaw, "unready", "tag %s was published although: %s" % (version, flaw))
        sim.check(git("cat-file", "-t", mine, cwd=ORIGIN) == "tag", "not-annotated", "tag %s is not annotated" % version)
        target = git("rev-parse", mine + "^{commit}", cwd=ORIGIN)
        sim.check(target == head == before["refs/heads/main"], "wrong-commit", "tag %s names %s; main was %s, checked out %s" % (version, target, before["refs/heads/main"], head))
        body_text = git("cat-file", "-p", mine, cwd=ORIGIN)
        sim.check("BEGIN PGP SIGNATURE" in body_text, "unsigned", "tag %s is not signed" % version)
        sim.check('version = "%s",' % version in show(ORIGIN, target, "MODULE.bazel") and show(ORIGIN, target, "CHANGELOG.md").startswith("# %s\n" % version), "wrong-version", "the tagged files do not carry %s" % version)
        sim.check("First note of %s." % version in body_text and "Old note" not in body_text, "notes", "the tag does not carry its notes: " + body_text[-300:])
        sim.probe("tag published")
    elif flaw:
        local = refs(WORK)
        if flaw != "arguments" or True:
            sim.check(status != 0, "unready", "exit 0 although: %s" % flaw)
        sim.check(local.get(tag) == local_before.get(tag), "unready", "a local tag was made although: %s" % flaw)
        sim.check(after == before or (fired and role[2] == 6), "unready", "something was published although %s: %s" % (flaw, sorted(set(after) - set(before))))
        sim.probe("refused")

    # the bump
    bump = after.get("refs/heads/chore/bump_version_to_" + nxt) if nxt else None
    merged = after["refs/heads/main"] != before["refs/heads/main"]
    sources = [bump] if bump else []
    squash = [l.split()[0] for l in git("log", "--format=%H %s", "refs/heads/main", cwd=ORIGIN).splitlines() if l.endswith(" squash")] if merged else []
    if squash:
        sim.check(len(squash) == 1, "bump", "the bump was merged %d times" % len(squash))
        sources.append(squash[0])
        sim.probe("bump merged")
    for rev in sources:
        sim.check(mine or theirs, "bump-without-tag", "the version was bumped and %s is not published" % version)
        sim.check(show(ORIGIN, rev, "MODULE.bazel") == (MODULE % nxt).replace("bazel_dep", same + "bazel_dep", 1), "bump", "MODULE.bazel after the bump: " + show(ORIGIN, rev, "MODULE.bazel"))
        sim.check(show(ORIGIN, rev, "CHANGELOG.md") == "# %s\n\n" % nxt + NOTES % (version, version), "bump", "CHANGELOG.md after the bump: " + show(ORIGIN, rev, "CHANGELOG.md"))
        names = git("diff", "--name-only", head, rev, cwd=ORIGIN).split()
        sim.check(sorted(n for n in names if n != "mbo/other.cc") == ["CHANGELOG.md", "MODULE.bazel"], "bump", "the bump changes " + " ".join(names))
    if status == 0:
        sim.check(mine, "no-tag", "exit 0 and %s is not published" % version)
        sim.check(sources, "no-bump", "exit 0 and the version was not bumped anywhere")
        sim.probe("released")
    if not fired and not flaw:
        sim.check(status == 0, "refused", "status %d on a ready checkout: %s" % (status, err[-400:]))
    if fired and role[2] in (1, 2, 4, 5) and status == 0:
        # only steps the script declares optional may fail silently
        sim.check(role[0].split()[0] in ("gh", "which", "git", "tee", "cat", "sed", "grep"), "swallowed", "%s failed and the script succeeded" % role[0])

    # again, with nothing failing: a release never happens twice and the tag stays
    if sim.chance(1, 4):
        helpers.arm()
        again, _, _, _ = script([TRIGGER] + args, WORK, SIM_ENV)
        final = refs(ORIGIN)
        sim.ev("again -> %d" % again)
        if tag in after:
            sim.check(final.get(tag) == after[tag], "moved", "a second run moved %s" % version)
            sim.check(again != 0, "twice", "a second run succeeded although %s is published" % version)
        sim.check(all(final.get(n) == o for n, o in after.items() if n.startswith("refs/tags/")), "moved", "a second run changed published tags")
    return mine, head, version


EXCLUDED = (".gitattributes", ".github/", ".gitignore", "tools/", "mbo/hash/measurements/")


def prep(sim):
    """The release workflow on a checkout of the tag."""
    fresh()
    version = sim.pick(["0.13.3", "1.0.0"])
    flaw = sim.pick(["", "", "", "module", "changelog", "patch"])
    write("MODULE.bazel", (MODULE % ("0.0.7" if flaw == "module" else version)).replace("dev.MODULE", "develop.MODULE" if flaw == "patch" else "dev.MODULE"))
    log = "0.0.7" if flaw == "changelog" else version
    write("CHANGELOG.md", NOTES % (log, log))
    names = ["mbo/extra%d.cc" % i for i in range(sim.choose(4))]
    for n in names:
        write(n, "int %s;\n" % n)
    git("add", "-A")
    git("commit", "-q", "-m", "release")
    git("tag", version)
    git("checkout", "-q", "--detach", version)
    tree = {l.split("\t")[1]: l.split()[2] for l in git("ls-tree", "-r", "HEAD").splitlines()}
    sim.ev("release_prep.sh %s; %s" % (version, flaw or "ready"))
    role = ("", 0, 0)
    if sim.chance(2, 3):
        role = (sim.pick(PREP_ROLES), sim.pick([0, 0, 0, 1]), 1 + sim.choose(5))
    index = open(os.path.join(WORK, ".git/index"), "rb").read()
    helpers.arm(*role)
    status, out, err, calls = script([PREP], WORK, dict(SIM_ENV, GITHUB_REF_NAME=version))
    fired = bool(helpers.shm.fired)
    note(sim, calls, role, status)
    sim.nontrivial = fired or bool(flaw)
    sim.state("prep %s %s %d" % (flaw, role if fired else "", status))
    sim.check(open(os.path.join(WORK, ".git/index"), "rb").read() == index, "index", "the checkout's own index was changed")
    sim.check(git("rev-parse", "HEAD") == git("rev-parse", version + "^{commit}"), "head", "HEAD moved")
    if not (fired and role[0].split()[0] in ("rm", "mktemp")):
        sim.check(not os.listdir(TMP), "litter", "left in TMPDIR: %s" % os.listdir(TMP))
    if status != 0:
        sim.check(flaw or fired, "refused", "status %d: %s" % (status, err[-300:]))
        sim.probe("no archive, and it says so")
        return
    sim.check(not flaw, "unready", "exit 0 although: %s" % flaw)
    sim.probe("archive made")
    path = os.path.join(WORK, "mbo-%s.tar.gz" % version)
    sim.check(os.path.exists(path), "archive", "exit 0 without an archive")
    with tarfile.open(path) as t:
        got = {m.name: t.extractfile(m).read().decode() for m in t.getmembers() if m.isfile()}
    prefix = "mbo-%s/" % version
    want = {prefix + n: git("cat-file", "blob", o) for n, o in tree.items() if not any(n == e or n.startswith(e) for e in EXCLUDED)}
    want[prefix + "VERSION"] = version
    sim.check(set(got) == set(want), "archive", "archive holds %s, not %s" % (sorted(set(got) - set(want)), sorted(set(want) - set(got))))
    for n, text in want.items():
        have = got[n].strip()
        if n == prefix + "MODULE.bazel":
            text = (MODULE % version).replace("include(", "# include(")
        if n == prefix + "BUILD.bazel":
            sim.check(have.startswith("# SPDX header") and "dev stuff" not in have, "archive", "BUILD.bazel in the archive: " + have)
            continue
        sim.check(have == text.strip(), "archive", "%s in the archive: %s" % (n, have[:300]))
    for part in ("# Version " + version, "First note of " + version, 'version = "%s")' % version):
        sim.check(part in out, "notes", "the release notes lack %r" % part)
    sim.check("Old note" not in out, "notes", "the release notes carry older notes")


def roles(path, cwd, env, args):
    helpers.arm()
    st, out, err, calls = script([path] + args, cwd, env)
    assert st == 0, err
    return sorted(set(calls))


def discover():
    global ROLES, PREP_ROLES
    fresh()
    write("MODULE.bazel", MODULE % "0.13.3")
    write("CHANGELOG.md", NOTES % ("0.13.3", "0.13.3"))
    git("commit", "-q", "-a", "-m", "x")
    git("push", "-q")
    try:
        ROLES = roles(TRIGGER, WORK, SIM_ENV, ["0.13.3"])
    except AssertionError as e:
        ROLES = ["git fetch", "git rev-parse", "git status", "git diff", "git tag", "git push", "patch -p1", "gpg --status-fd=2", "mv MODULE.bazel.tmp"]
    fresh()
    write("MODULE.bazel", MODULE % "0.13.3")
    write("CHANGELOG.md", NOTES % ("0.13.3", "0.13.3"))
    git("commit", "-q", "-a", "-m", "x")
    try:
        PREP_ROLES = roles(PREP, WORK, dict(SIM_ENV, GITHUB_REF_NAME="0.13.3"), [])
    except AssertionError as e:
        PREP_ROLES = ["git read-tree", "git add", "git write-tree", "git archive", "patch -s", "cat tools/header.txt"]


def body(sim):
    if ROLES is None:
        discover()
    (prep if sim.chance(1, 4) else trigger)(sim)


if __name__ == "__main__":
    sys.exit(core.main("c34", body))
