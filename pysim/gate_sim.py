"""C33: the repository's gates and report tools while what they read, write and call fails: exit 0 only for the real answer."""
import json, os, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core, faultbox, load  # noqa: E402

faultbox.ensure()
import argparse, datetime, fnmatch, html, pathlib, re, subprocess, tempfile  # noqa: E402,F401  (loaded once, not in every fork)
try:
    import yaml  # noqa: F401
except ImportError:
    pass

TOOLS = os.path.join(load.REPO, "tools")
box = faultbox.Box("c33")
helpers = faultbox.Helpers(box, ["git", "grep", "sed", "tee", "mktemp", "clang-tidy-23", "rm", "head", "basename"])
DATA = os.path.join(box.dir, "data")
os.mkdir(DATA)
helpers.stand_in("git", """#!/bin/sh
case "$1" in
  rev-parse) cat %(d)s/toplevel ;;
  ls-files) [ "$(/usr/bin/pwd)" = "$(/usr/bin/cat %(d)s/toplevel)" ] || exit 0; cat %(d)s/files ;;
  diff) cat %(d)s/diff ;;
  *) exit 129 ;;
esac
""" % {"d": DATA})
helpers.stand_in("clang-tidy-23", """#!/bin/sh
[ "$1" = "--version" ] && { echo "LLVM version 22.1.8"; exit 0; }
s=0
for f in "$@"; do
  case "$f" in *.cc|*.h) ;; *) continue ;; esac
  while IFS= read -r l; do
    case "$l" in
      *BAD_STYLE*) echo "$f:1: error: bad style [some-check,-warnings-as-errors]"; s=1 ;;
      *BAD_PARSE*) echo "$f:1: error: file not found [clang-diagnostic-error]"; s=1 ;;
    esac
  done < "$f"
done
exit $s
""")


def put(rel, text):
    p = os.path.join(box.root, rel)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb") as f:
        f.write(text if isinstance(text, bytes) else text.encode())


def data(name, text):
    with open(os.path.join(DATA, name), "w") as f:
        f.write(text)


class Gate:
    """argv and what the answer must be: `problems` (tokens to be reported, None if the undisturbed run is the only oracle)."""

    def __init__(self, tool, argv, problems=None, outputs=(), stdin=b"", process=False, env=None, tree=None, answers=False, judge=None, cwd=None):
        self.tool, self.argv, self.problems, self.outputs, self.stdin, self.process, self.env, self.tree = tool, argv, problems, outputs, stdin, process, env or {}, tree
        self.judge, self.cwd = judge, cwd
        self.answers = answers  # statuses 0 and 1 are both answers


PACKAGES = ["mbo/a", "mbo/b", "mbo/b/c", "mbo/externals", ".github/x", "third_party_x", "mbo/file", "x", "external/dep", "third_party/lib", "bazel-out/mbo/a", "mbo/bazel-tmp"]
ROGUE = ["external", "third_party", "bazel-out", "bazel-tmp"]


def build_tree(sim):
    """Writes BUILD files; returns [(path, package, skipped, [(name, tested)])]."""
    out = []
    for pkg in sim.shuffle(PACKAGES)[: 1 + sim.choose(5)]:
        libs, text, tests = [], ["# comment", ""], []
        for i in range(sim.choose(4)):
            name = "%s%d%s" % (sim.pick(["lib", "thing", "w"]), i, "_cc" if sim.chance(4, 5) else sim.pick(["", "_lib"]))
            tested = sim.chance(4, 5)
            libs.append((name, tested))
            if sim.chance(1, 6):
                text.append('cc_library(name = "%s")' % name)
            else:
                text += ["cc_library(", '    name = "%s",' % name, '    srcs = ["%s.cc"],' % name, '    deps = [', '        ":other",', "    ],", ")", ""]
            if tested:
                tests.append(sim.pick([":%s", "//" + pkg + ":%s"]) % name)
            elif sim.chance(1, 2):  # named where it does not count
                near = sim.pick(['"//%s/z:%s"' % (pkg, name), '"//mbo/zz:%s"' % name, '"@other//%s:%s"' % (pkg, name), '"//%s:%s_more"' % (pkg, name), '":%s_more"' % name, "data", "cc_library(", "cc_binary(", "test_suite("])
                if near.startswith('"'):
                    text += ["cc_test(", '    name = "near_%s",' % name, "    deps = [", "        %s," % near, "    ],", ")", ""]
                elif near == "data":
                    text += ["cc_test(", '    name = "near_%s",' % name, "    deps = [", "        \"//mbo/z:far_cc\",", "    ],", '    data = [":%s"],' % name, "    tools = [", '        ":%s",' % name, "    ],", ")", ""]
                else:
                    text += [near, '    name = "%s_uses_%s_cc",' % (re.sub(r"\W", "", near), name), "    deps = [", '        ":%s",' % name, "    ],", ")", ""]
                    if near == "cc_library(":
                        libs.append(("cc_library_uses_%s_cc" % name, False))
        for t in tests:
            called = "t_%s" % re.sub(r"\W", "_", t)
            kind = sim.pick(["cc_test(", "sh_test(", "diff_test("])
            text += [kind + 'name = "%s",' % called] if sim.chance(1, 6) else [kind, '    name = "%s",' % called]
            text += sim.pick([[], ['    data = [":other"],'], ['    size = "small",']])
            text += sim.pick([["    deps = [", '        "%s",' % t, '        "//mbo/z:far_cc",', "    ],"], ['    deps = ["//mbo/z:far_cc", "%s"],' % t],
                              ["    deps = [", '        "//mbo/z:far_cc",', "    ] + select({", '        "//conditions:default": ["%s"],' % t, "    }),"]])
            text += [")", ""]
        if sim.chance(1, 4):
            text += ['filegroup(', '    name = "files",', ")", ""]
        if sim.chance(1, 20):
            text += ["# " + "x" * 9000]
        path = pkg + "/" + sim.pick(["BUILD.bazel", "BUILD.bazel", "BUILD"])
        put(path, "\n".join(text) + "\n")
        out.append((path, pkg, any(p in ROGUE or p.startswith("bazel-") for p in pkg.split("/")), libs))
    return out


def lint(sim, tool):
    tree = build_tree(sim)
    explicit = sim.chance(1, 3)
    shown = [t for t in tree if explicit or not t[2]]
    bad = (lambda n, tested: not n.endswith("_cc")) if tool == "check_cc_target_naming.py" else (lambda n, tested: not tested)
    problems = [(t[0] + ":", "'%s'" % n) for t in shown for n, tested in t[3] if bad(n, tested)]
    missing = ["mbo/gone/BUILD.bazel"] if explicit and sim.chance(1, 6) else []
    problems += [(m,) for m in missing]
    return Gate(tool, sim.shuffle([t[0] for t in tree] + missing) if explicit else [], problems)


def naming(sim):
    return lint(sim, "check_cc_target_naming.py")


def tested(sim):
    return lint(sim, "check_cc_library_tested.py")


def headers(sim):
    problems, files = [], []
    packages = ["mbo"] + ["mbo/" + p for p in ("a", "b", "hash")]
    with_build = [p for p in packages if sim.chance(3, 4)]
    claimed = {p: [] for p in with_build}
    for i in range(sim.choose(7)):
        d = sim.pick(packages + ["mbo/a/internal", "mbo/hash/internal"])
        f = "%s/h%d.h" % (d, i)
        put(f, "#pragma once\n")
        files.append(f)
        owner = next((p for p in sorted(with_build, key=len, reverse=True) if f.startswith(p + "/")), None)
        if owner is not None and sim.chance(4, 5):
            claimed[owner].append(f[len(owner) + 1:])
        else:
            problems.append((f,))
            for p in with_build:  # named where, or as something, that does not claim it
                if sim.chance(1, 3) and (p != owner or "/" in f[len(p) + 1:]) and f.startswith(p + "/"):
                    claimed[p].append(f[len(p) + 1:] if p != owner else f.rsplit("/", 1)[1] if f.rsplit("/", 1)[0] != p else "none.h")
                elif p == owner and sim.chance(1, 3):
                    claimed[p].append("x" + f[len(p) + 1:])
    for p in with_build:
        if not claimed[p] and sim.chance(1, 2):
            put(p + "/BUILD.bazel", "")
            continue
        put(p + "/BUILD.bazel", "cc_library(\n    name = \"x\",\n    hdrs = [%s],\n)\n" % ", ".join('"%s"' % c for c in claimed[p]))
    data("toplevel", box.root + "\n")
    data("files", "".join(f + "\n" for f in files))
    explicit = sim.chance(1, 3) and files
    return Gate("check_headers_claimed.py", sim.shuffle(files) if explicit else [], problems, cwd=None if explicit or not files or sim.chance(2, 3) else os.path.dirname(os.path.join(box.root, sim.pick(files))))


def status_assert(sim):
    problems, names = [], []
    for i in range(1 + sim.choose(4)):
        name = "mbo/t%d%s" % (i, sim.pick(["_test.cc", "_test.cc", ".cc"]))
        lines = []
        for j in range(sim.choose(4)):
            var = "v%d" % j
            lines += ["  // filler ü"] * sim.choose(3)
            lines.append("  ASSERT_THAT(%s, IsOk());" % var)
            at = len(lines)
            gap = sim.choose(11)
            lines += ["  Other();"] * gap
            deref = sim.pick(["*%s", "%s->x()", "(*%s).y"]) if sim.chance(1, 4) else ""
            lines.append("  EXPECT_THAT(%s, 1);" % deref % var if deref else sim.pick(["  Use(%s);", "  *%sx;", "  w%s->x();", "  %s.ok();", "  %s - 1 > 0;"]) % var)
            if deref and gap < 8 and name.endswith("_test.cc"):
                problems.append(("%s:%d:" % (name, at),))
            elif sim.chance(1, 4):
                lines += ["  Other();"] * 8 + ["  ASSERT_THAT(u%d, IsOk()) << *u%d;" % (j, j)]
        put(name, "\n".join(lines) + ("\n" if lines else ""))
        names.append(name)
    if sim.chance(1, 12):
        names.insert(sim.choose(len(names) + 1), "mbo/gone_test.cc")
        problems = [("mbo/gone_test.cc",)]  # stops it
    return Gate("check_status_assert.py", names, problems)


def matchers(sim):
    problems, names = [], []
    for i in range(1 + sim.choose(3)):
        name = "mbo/%s/m%d.%s" % (sim.pick(["a", "testing"]), i, sim.pick(["cc", "h"]))
        lines = ["int x; // EXPECT_EQ(1, 2)"] if sim.chance(1, 2) else []
        bad = 0
        for _ in range(sim.choose(5)):
            k = sim.choose(8)
            if k == 0:
                lines.append("  EXPECT_EQ(a, b);")
                bad = 1
            elif k == 1:
                lines.append("  EXPECT_THAT(a, testing::Eq(b));")
                bad |= not re.match(r"mbo/testing/.*\.h", name)
            elif k == 2:
                lines.append("  testing::TempDir();")
            elif k == 3:
                lines += ["  filler(%d);" % j for j in range(sim.pick([10, 5000]))]
            else:
                lines.append("  EXPECT_THAT(a, Eq(b));")
        put(name, "\n".join(lines) + "\n")
        names.append(name)
        if bad:
            problems.append((name + ":",))
    tmp = os.path.join(box.root, "tmp")
    os.makedirs(tmp, exist_ok=True)
    return Gate("check_test_matchers.sh", names, problems, process=True, env={"TMPDIR": tmp})


def clang_tidy(sim):
    problems, names, db = [], [], []
    for i in range(1 + sim.choose(4)):
        name = "mbo/%s%d%s" % (sim.pick(["a", "b"]), i, sim.pick([".cc", "_test.cc", ".h"]))
        kind = sim.choose(8)
        put(name, {0: "BAD_STYLE\n", 1: "BAD_PARSE\n"}.get(kind, "int fine;\n"))
        if kind < 2:
            problems.append((name,))
        if not name.endswith(".h"):
            if sim.chance(15, 16):
                db.append({"file": sim.pick([name, os.path.join(box.root, name)]), "directory": box.root})
            else:
                problems.append((name,))
        names.append(name)
    if any(p for p in problems if p[0] in names and not any(os.path.basename(d["file"]) == os.path.basename(p[0]) for d in db)):
        problems = problems[:1] and [("",)]  # a stale data base stops the script before it looks at anything
    put("compile_commands.json", json.dumps(db))
    tmp = os.path.join(box.root, "tmp")
    os.makedirs(tmp, exist_ok=True)
    return Gate("clang_tidy.sh", names, problems, process=True, env={"TMPDIR": tmp, "LLVM_PATH": "/nonexistent"})


MARKS = ["", "", "", "", "// LCOV_EXCL_LINE", "// LCOV_EXCL_BR_LINE", "// LCOV_EXCL_FUNC_LINE", "// LCOV_MERGE_FUNC_LINE"]


class Source:
    """One source of a report: what was planted for each of its lines."""

    def __init__(self, sim, i):
        self.name = "%s/f%d%s.cc" % (sim.pick(["mbo/a", "mbo/b", "mbo/a/sub", "mbo/b", "mbo/c", "other"]) if sim.chance(1, 3) else sim.pick(["mbo/a", "mbo/b"]), i, "_test" if sim.chance(1, 8) else "")
        self.sf = os.path.join(box.root, self.name) if sim.chance(1, 2) else self.name
        self.present = sim.chance(5, 6)
        self.empty = sim.chance(1, 8)
        self.lines, self.functions, self.branches, src = {}, [], [], []
        for n in range(1, 2 + sim.choose(8)):
            src.append("code%d() %s %s" % (n, sim.pick(["{", "{", ";"]), sim.pick(MARKS)))
            if self.empty:
                continue
            self.lines[n] = sim.pick([0, 1, 5])
            for k in range(sim.pick([0, 0, 1, 2])):
                self.functions.append(("fn%d_%d" % (n, k), n, sim.pick([0, 1, 7])))
            for k in range(sim.pick([0, 0, 2])):
                self.branches.append((n, sim.pick(["-", "0", "3"])))
        self.src = src
        if self.present:
            put(self.name, "\n".join(src) + "\n")

    def record(self, sim):
        rec = ["TN:"] * sim.choose(2) + ["SF:" + self.sf]
        rec += ["FN:%d,%s" % (n, f) for f, n, h in self.functions] + ["FNDA:%d,%s" % (h, f) for f, n, h in self.functions]
        rec += ["BRDA:%d,0,%d,%s" % (n, i, t) for i, (n, t) in enumerate(self.branches)]
        rec += ["DA:%d,%d" % (n, h) for n, h in self.lines.items()]
        return "\n".join(rec + ["FNF:%d" % len(self.functions), "BRF:%d" % len(self.branches), "LF:%d" % len(self.lines), "LH:0", "end_of_record"]) + "\n"

    @property
    def selected(self):
        return self.name.startswith("mbo/") and not self.name.endswith("_test.cc")

    def marked(self, word):
        return {n for n, l in enumerate(self.src, 1) if self.present and l.endswith(word)}

    def signature(self, word):
        """{line: first line of the marked signature it belongs to}: from the marker up to its opening brace."""
        out = {}
        for n in sorted(self.marked(word)):
            for m in range(n, len(self.src) + 1):
                out[m] = n
                if "{" in self.src[m - 1]:
                    break
        return out

    def facts(self):
        """[(metric, line, covered)] that count."""
        skip = self.marked("LCOV_EXCL_LINE")
        out = [("lines", n, h > 0) for n, h in self.lines.items() if n not in skip]
        out += [("branches", n, t not in ("-", "0")) for n, t in self.branches if n not in skip | self.marked("LCOV_EXCL_BR_LINE")]
        dropped, merged, groups = self.signature("LCOV_EXCL_FUNC_LINE"), self.signature("LCOV_MERGE_FUNC_LINE"), {}
        for f, n, h in self.functions:
            if n in dropped:
                continue
            if n in merged:
                groups[merged[n]] = groups.get(merged[n], False) or h > 0
            else:
                out.append(("functions", n, h > 0))
        return out + [("functions", n, c) for n, c in groups.items()]


def lcov(sim):
    """A report of a few sources, some with exclusion markers."""
    sources = [Source(sim, i) for i in range(1 + sim.choose(4))]
    return "".join(s.record(sim) for s in sources), sources


def tally(facts):
    return {m: (sum(c for k, _, c in facts if k == m), sum(1 for k, _, c in facts if k == m)) for m in ("lines", "functions", "branches")}


POLICY = {"include": ["mbo/**"], "exclude": ["mbo/**/*_test.cc"], "patch_minimum": {"lines": 95, "branches": 85},
          "categories": {"a": {"include": ["mbo/a/**"]}, "b": {"include": ["mbo/b/**"], "minimum": {"branches": 10}}}}


def coverage(sim):
    text, sources = lcov(sim)
    put("coverage.lcov", text)
    policy = dict(POLICY, minimum=sim.pick([{"lines": 1}, {"lines": 50, "functions": 10}, {}, {"lines": 60, "branches": 50}]), patch_minimum=sim.pick([{"lines": 95, "branches": 85}, {"lines": 30}, {}]))
    put("policy.json", json.dumps(policy))
    argv = ["--lcov", "coverage.lcov", "--policy", "policy.json", "--summary", "summary.md", "--json-summary", "summary.json"]
    outputs = ["summary.md", "summary.json"]
    if sim.chance(1, 4):
        argv += ["--baseline", "base.json", "--write-baseline"]
        outputs.append("base.json")
    chosen = [s for s in sources if s.selected]
    facts = {"overall": [f for s in chosen for f in s.facts()]}
    for c in policy["categories"]:
        facts[c] = [f for s in chosen if s.name.startswith("mbo/%s/" % c) for f in s.facts()]
    want = {c: tally(f) for c, f in facts.items()}
    short = []
    for c, counted in want.items():
        minimum = dict(policy["minimum"], **({"branches": 10} if c == "b" else {}))
        short += ["%s %s:" % (c, m) for m, least in minimum.items() if not counted[m][1] or 100 * counted[m][0] < least * counted[m][1]]
    patch, bare = None, []
    if sim.chance(1, 2):
        argv += ["--base-ref", "origin/main"]
        diff, changed = "", {}
        for s in sources:
            if not s.name.startswith("mbo/") or sim.chance(1, 3):
                continue
            diff += "diff --git a/%s b/%s\n--- a/%s\n+++ b/%s\n" % ((s.name,) * 4)
            changed[s.name] = set()
            for _ in range(1 + sim.choose(2)):
                start, count = 1 + sim.choose(6), sim.choose(4)
                diff += "@@ -%d,%d +%s @@ code()\n" % (sim.choose(9), sim.choose(3), start if count == 1 and sim.chance(1, 2) else "%d,%d" % (start, count)) + "+x\n" * count
                changed[s.name] |= set(range(start, start + count))
        data("diff", diff)
        patch = tally([f for s in chosen for f in s.facts() if f[0] != "functions" and f[1] in changed.get(s.name, ())])
        bare = sorted({"uncovered patch %s: %s:%d" % ({"lines": "line", "branches": "branch"}[m], s.name, n)
                       for s in chosen for m, n, c in s.facts() if m != "functions" and not c and n in changed.get(s.name, ())})
        short += ["patch %s:" % m for m, least in policy["patch_minimum"].items() if 100 * patch[m][0] < least * patch[m][1]]
        if not any(patch[m][1] for m in patch):
            patch = None

    def judge(sim, ref, text, got):
        if not chosen:
            return sim.check(ref.status == 2, "verdict", "status %d although no source is selected" % ref.status)
        sim.check((ref.status != 0) == bool(short), "verdict", "status %d, thresholds missed: %s; said %s" % (ref.status, short, text[-600:]))
        said = [l for l in text.split("\n") if l.startswith("coverage threshold failed: ")]
        sim.check(len(said) == len(short) and all(any(t in l for l in said) for t in short), "not-reported", "%s was missed but it says %s" % (short, said))
        said = sorted(l for l in text.split("\n") if l.startswith("uncovered patch "))
        sim.check(said == (bare if any(t.startswith("patch ") for t in short) else []), "not-reported", "uncovered: %s, it says %s" % (bare, said))
        shown = json.loads(got["summary.json"])
        for name, counted in list(want.items()) + ([("patch", patch)] if patch else []):
            have = shown["patch"] if name == "patch" else shown["measurements"][name]
            have = {m: (have[m]["covered"], have[m]["total"]) for m in have}
            sim.check(have == counted, "counts", "%s counted as %s, planted %s" % (name, have, counted))
        sim.check(("patch" in shown) == bool(patch), "counts", "patch coverage is %s" % shown.get("patch"))
        sim.probe("coverage.py judged: " + ("thresholds missed" if short else "thresholds met"))

    return Gate("coverage.py", argv, None, outputs, judge=judge)


def sources(sim):
    text, found = lcov(sim)
    if sim.chance(1, 4):  # as reported by two tests
        twin = sim.pick(found)
        text += twin.record(sim)
        found = found + [twin]
    put("coverage.lcov", text)
    policy = dict(POLICY, categories=dict(POLICY["categories"], sub={"include": ["mbo/a/sub/**"]}) if sim.chance(1, 4) else POLICY["categories"])
    put("policy.json", json.dumps(policy))
    kept = [s for s in found if s.selected and not s.empty]
    homeless = [s for s in kept if s.name.split("/")[1] not in ("a", "b") or (s.name.startswith("mbo/a/sub/") and "sub" in policy["categories"])]

    def judge(sim, ref, text, got):
        sim.check((ref.status != 0) == bool(homeless), "verdict", "status %d, sources without a category: %s; said %s" % (ref.status, [s.name for s in homeless], text[-400:]))
        if ref.status:
            return
        links = {"tree/%s/%s" % (s.name.split("/")[1], s.name): os.path.join(box.root, s.name) for s in kept}
        sim.check({n: v for n, v in got.items() if n != "out.lcov"} == links, "tree", "the source tree is %s, not %s" % (sorted(got), sorted(links)))
        shown = re.findall(r"(?m)^SF:(.*)$", got["out.lcov"].decode())
        sim.check(shown == [os.path.join(box.root, "tree/%s/%s" % (s.name.split("/")[1], s.name)) for s in kept], "records", "records of %s, not %s" % (shown, list(links)))
        sim.check(got["out.lcov"].count(b"DA:") == sum(len(s.lines) + len(s.functions) + len(s.branches) for s in kept), "records", "lines of a record are missing")
        sim.probe("coverage_sources.py judged")

    return Gate("coverage_sources.py", ["coverage.lcov", "out.lcov", "--policy", "policy.json", "--source-root", "tree"], None, ["out.lcov"], tree="tree", judge=judge)


def report(serial, sim, target):
    return {"schema": 1, "target": target, "coverage": {m: {"percent": 50.0, "covered": 1, "total": 2} for m in ("lines", "functions", "branches")},
            "source": {"created_at": "2026-01-0%dT00:00:00Z" % (1 + sim.choose(4)), "started_at": "2026-01-05T00:00:00Z", "completed_at": "2026-01-05T01:00:00Z",
                       "run_id": sim.pick([1, 2, 9, 10]), "run_attempt": sim.pick([1, 1, 2, 10]), "head_sha": "%040x" % serial}}


def site(sim):
    for i, t in enumerate(sim.shuffle(["main", "pr/1", "pr/22", "tag/0.1.0", "tag/1.2.3"])[: sim.choose(6)]):
        put("site/%s/coverage-meta.json" % t, json.dumps(report(i, sim, t)))
    return Gate("coverage_index.py", ["site", "site", "index.html"], None, ["index.html"])


def newer(sim):
    candidate, current = report(1, sim, "main"), report(2, sim, "main")
    put("candidate.json", json.dumps(candidate))
    put("current.json", json.dumps(current))
    a, b = ([r["source"][k] for k in ("created_at", "run_id", "run_attempt")] for r in (candidate, current))

    def judge(sim, ref, text, got):
        sim.check(ref.status == (0 if a >= b else 1), "verdict", "newer answers %d for %s against %s" % (ref.status, a, b))

    return Gate("coverage_index.py", ["newer", "candidate.json", "current.json"], None, [], answers=True, judge=judge)


def page(sim):
    def one():
        total = sim.choose(4)
        covered = sim.choose(total + 1)
        return {"percent": round(100.0 * covered / total, 2) if total else None, "covered": covered, "total": total}

    rows = {name: {m: one() for m in ("lines", "functions", "branches")} for name in ("overall", "<a>", "b&c")[: 1 + sim.choose(3)]}
    minimums = {name: {m: sim.pick([10, 60, 100]) for m in sim.shuffle(["lines", "functions", "branches"])[: sim.choose(4)]} for name in rows if sim.chance(3, 4)}
    targets = {name: {m: sim.pick([10, 60, 100]) for m in sim.shuffle(["lines", "functions", "branches"])[: sim.choose(4)]} for name in rows if sim.chance(3, 4)}
    summary = {"schema": 1, "measurements": rows, "minimums": minimums, "targets": targets}
    if sim.chance(1, 2):
        summary["patch"] = {m: one() for m in ("lines", "functions", "branches")}
    put("summary.json", json.dumps(summary))
    percent = lambda v: "n/a" if v["percent"] is None else "%.2f%%" % v["percent"]  # noqa: E731

    def judge(sim, ref, text, got):
        sim.check(ref.status == 0, "verdict", "status %d: %s" % (ref.status, text[-400:]))
        text = got["index.html"].decode()
        shown = [re.findall(r"<td>(.*?)</td>", r) for r in re.findall(r"<tr[^>]*>.*?</tr>", text) if "<td>" in r]
        expect = []
        for name, metrics in rows.items():
            fail = [m for m in metrics if metrics[m]["percent"] is None or metrics[m]["percent"] < minimums.get(name, {}).get(m, 0)]
            low = [m for m in metrics if m not in fail and metrics[m]["percent"] < targets.get(name, {}).get(m, 0)]
            status = "FAIL: " + "/".join(m[0].upper() for m in fail) if fail else "LOW: " + "/".join(m[0].upper() for m in low) if low else "OK"
            expect.append([html.escape(name), status] + [c for v in metrics.values() for c in (percent(v), str(v["covered"]), str(v["total"]))])
        if "patch" in summary:
            expect.append([percent(summary["patch"]["lines"]), percent(summary["patch"]["branches"])])
        sim.check(shown == expect, "rows", "the page shows %s, not %s" % (shown, expect))
        sim.probe("report page judged")

    if sim.chance(1, 2):
        return Gate("coverage_index.py", ["report", "summary.json", sim.pick(["pr/5", "main", "tag/1.2.3"]), "index.html"], None, ["index.html"], judge=judge)
    source = {"created_at": "2026-01-05T00:00:00Z", "started_at": "2026-01-05T00:00:01Z", "completed_at": "2026-01-05T00:00:02Z", "run_id": 7, "run_attempt": 1 + sim.choose(2), "head_sha": "0123456789" * 4}
    target = sim.pick(["pr/5", "main"])

    def identity(sim, ref, text, got):
        sim.check(ref.status == 0, "verdict", "status %d: %s" % (ref.status, text[-400:]))
        meta = json.loads(got["meta.json"])
        sim.check(meta == {"schema": 1, "target": target, "source": source, "coverage": rows["overall"]}, "metadata", "wrote %s" % meta)

    return Gate("coverage_index.py", ["metadata", "summary.json", target, "meta.json"] + [a for k, v in source.items() for a in ("--" + k.replace("_", "-"), str(v))], None, ["meta.json"], judge=identity)


def cleanup(sim):
    caches = [{"id": 100 + i, "key": sim.pick(["build-a-", "build-b-"]) + str(i), "ref": "r", "createdAt": "2026-01-0%dT00:00:00Z" % (1 + sim.choose(8))} for i in range(sim.choose(6))]
    return Gate("cache_cleanup.py", ["build-a-"], None, [], stdin=json.dumps(caches).encode())


def guards(sim):
    problems, names = [], []
    for i in range(1 + sim.choose(4)):
        name = "mbo/%s/h_%d%s" % (sim.pick(["a", "b-c"]), i, sim.pick([".h", ".h", ".h", ".cc"]))
        want = re.sub(r"[^A-Za-z0-9]", "_", name).upper() + "_"
        guard = sim.pick([want, want, want, want[:-1], "H_%d_H_" % i])
        define = sim.pick([guard, guard, guard, guard, guard + "X"])
        comment = sim.pick(["  // " + guard, "  // " + guard, "  // OTHER_H_", ""])
        lines = ["// ü"] * sim.choose(3) + ["#ifndef " + guard, "#define " + define, "#if X"] + ["int filler;"] * sim.pick([0, 3, 900]) + ["#endif  // X", "#endif" + comment]
        kind = sim.choose(10)
        if kind == 0:
            lines = ["#pragma once"]
        if kind == 1:
            lines = ["#define " + want] + lines[-1:]
        put(name, "\n".join(lines) + "\n")
        names.append(name)
        if name.endswith(".h") and (kind < 2 or guard != want or define != guard or "OTHER" in comment):
            problems.append((name + ":",))
    if sim.chance(1, 12):
        names.insert(sim.choose(len(names) + 1), "mbo/gone.h")
        problems.append(("mbo/gone.h:",))
    return Gate("../.pre-commit/check_header_guards.py", names, problems)


def version(sim):
    a = sim.pick(["0.13.3", "1.0.0"])
    b = sim.pick([a, a, a + "0", "0.13.2", "1.0"])
    put("MODULE.bazel", 'module(\n    name = "x",\n    version = "%s",\n)\nbazel_dep(name = "y", version = "0.0.1")\n' % a)
    put("CHANGELOG.md", "# %s\n\n- note\n\n# 0.0.1\n" % b)
    return Gate("../.pre-commit/check_version.sh", [], [("ERROR:", a, b)] if a != b else [], process=True)


def done_gate(sim):
    jobs = ["job%d" % i for i in range(sim.choose(6))]
    needed = [j for j in jobs if sim.chance(4, 5)]
    needs = {0: "[%s]" % ", ".join(needed), 1: "\n" + "".join("      - %s\n" % j for j in needed)}[sim.choose(2)] if needed else "[]"
    if len(needed) == 1 and sim.chance(1, 2):
        needs = needed[0]
    put(".github/workflows/main.yml", "name: x\njobs:\n" + "".join("  %s:\n    runs-on: linux # %s\n" % (j, "ü" * sim.pick([1, 1, 9000])) for j in jobs) + "  done:\n    needs: %s\n" % needs)
    return Gate("../.pre-commit/check_done_gate.py", [], [("'%s'" % j,) for j in jobs if j not in needed])


GATES = [naming, tested, headers, status_assert, coverage, sources, site, newer, page, cleanup, guards, done_gate]
SCRIPTS = [matchers, clang_tidy, version]

ONLY = globals().get(os.environ.get("SIM_GATE", ""))


def files(gate):
    out = {}
    for n in gate.outputs:
        p = os.path.join(box.root, n)
        out[n] = open(p, "rb").read() if os.path.exists(p) else None
    if gate.tree:
        for d, ds, ns in os.walk(os.path.join(box.root, gate.tree)):
            for n in ns:
                p = os.path.join(d, n)
                out[os.path.relpath(p, box.root)] = os.readlink(p) if os.path.islink(p) else open(p, "rb").read()
    return out


def clear(gate):
    import shutil
    for n in gate.outputs:
        if os.path.exists(os.path.join(box.root, n)):
            os.unlink(os.path.join(box.root, n))
    if gate.tree:
        shutil.rmtree(os.path.join(box.root, gate.tree), ignore_errors=True)


def body(sim):
    box.reset()
    with sim.span():
        make = ONLY or (sim.pick(SCRIPTS) if sim.chance(1, 9) else sim.pick(GATES))
        gate = make(sim)
    path = os.path.join(TOOLS, gate.tool)
    argv = (["/usr/bin/bash", path] if gate.process else [path]) + gate.argv
    env = dict(helpers.env, **gate.env)
    if gate.process:
        env["SIM_FAULT_QUIET"] = "1"
    sim.ev("%s %s" % (gate.tool, " ".join(gate.argv)))
    helpers.arm()
    ref = box.run(argv, cwd=gate.cwd, env=env, stdin=gate.stdin, stdout_too=not gate.process, as_process=gate.process)
    calls = sorted(helpers.calls())  # the stages of a pipeline start in any order
    want = files(gate)
    text = (ref.out + ref.err).decode("utf-8", "replace")
    if gate.problems is not None:
        sim.check((ref.status != 0) == bool(gate.problems), "verdict", "status %d, problems planted: %s; said %s" % (ref.status, gate.problems, text[:600]))
        for tokens in gate.problems:
            sim.check(any(all(t in l for t in tokens) for l in text.split("\n")), "not-reported", "%s is not reported: %s" % (tokens, text[:600]))
        sim.probe("%s %s" % (gate.tool, "refuses" if gate.problems else "passes"))
    if gate.judge:
        gate.judge(sim, ref, text, want)
    sim.ev("undisturbed: status %d" % ref.status)
    clear(gate)

    plans = faultbox.draw_plans(sim, ref.count, kills=False)
    role = ("", 0, 0)
    if calls and sim.chance(1, 2):
        name = sim.pick(calls)
        role = (name, sim.choose(calls.count(name)), 1 + sim.choose(5))
    shown = re.sub(r"(/dev/shm|/tmp)/\S*", "PATH", role[0])  # the scratch directory's name differs
    helpers.arm(*role)
    as_process = gate.process or (not calls and sim.chance(1, 60))
    res = box.run(argv, plans, cwd=gate.cwd, env=env, stdin=gate.stdin, stdout_too=not gate.process, as_process=as_process)
    if as_process and not gate.process:
        sim.probe("as a real process")
    stable = not gate.process  # names of temporary files differ
    faultbox.note(sim, res, lambda n: stable or not n.startswith("tmp"))
    if helpers.shm.fired:
        sim.fault("%s %s" % (shown, faultbox.HELPER_ACTIONS[role[2]]))
    # (a shell does not retry an interrupted open, so failing is an answer there)
    hard = [f for f in res.fired if f[1] == faultbox.FAIL or gate.process] or helpers.shm.fired
    sim.nontrivial = bool(res.fired) or bool(helpers.shm.fired)
    sim.state("%s %s %s %d %d" % (gate.tool, [(f[0], f[1], f[2]) for f in res.fired], (shown, role[1:]) if helpers.shm.fired else "", ref.status, res.status))
    sim.check(not res.killed, "crash", "died of signal %d" % -res.status)
    if res.status == 0 or (gate.answers and res.status == 1):
        sim.check(ref.status == res.status, "passes" if res.status == 0 else "answers", "%s exits %d under %s %s although the answer is %d: %s" % (gate.tool, res.status, res.fired, role if helpers.shm.fired else "", ref.status, text[:300]))
        sim.check(res.out == ref.out or gate.process, "output", "%s exits %d and printed %r, not %r" % (gate.tool, res.status, res.out[:300], ref.out[:300]))
        got = files(gate)
        sim.check(got == want, "incomplete", "%s exits %d but wrote %s" % (gate.tool, res.status, [n for n in set(got) | set(want) if got.get(n) != want.get(n)]))
    else:
        sim.check(res.err or res.out or not hard or helpers.shm.fired, "silent", "%s exits %d without a word" % (gate.tool, res.status))
    if not hard:
        sim.check(res.status == ref.status, "status", "%s exits %d without a hard fault, undisturbed %d" % (gate.tool, res.status, ref.status))
    elif res.status != 0 and ref.status == 0:
        sim.probe("%s fails closed" % gate.tool)

    # faults stop: the same answer again
    clear(gate)
    helpers.arm()
    end = box.run(argv, cwd=gate.cwd, env=env, stdin=gate.stdin, stdout_too=not gate.process, as_process=gate.process)
    sim.check(end.status == ref.status and files(gate) == want, "no-recovery", "status %d once faults stopped, %d before" % (end.status, ref.status))


if __name__ == "__main__":
    sys.exit(core.main("c33", body))
