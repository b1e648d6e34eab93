"""C32: tools/align_markdown_tables.py rewriting documents while file operations fail or the process is killed."""
import os, re, shutil, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core, faultbox, load  # noqa: E402

faultbox.ensure()
TOOL = os.path.join(load.REPO, "tools", "align_markdown_tables.py")
box = faultbox.Box("c32")
import argparse, contextlib, errno, shutil, stat, tempfile  # noqa: E402,F401  (loaded once, not in every fork)

WORDS = ["a", "bb", "value", "x \\| y", "`code`", "", "ümlaut", "日本", "😀", "**bold**", "1", "22.5", "long cell with words", "end \\|", "-", ":-:", "tab\there"]
PROSE = ["", "Text.", "A | b without a table", "# Title", "  indented", "trailing  ", "- list", "\tindented by tab", "ünï", "| lone row |", "<b>|</b>", "a\x0bb", "a\u2028b", "\ufeff"]


def document(sim):
    """Returns (lines, fixed): fixed lines are no part of a table."""
    lines, fixed = [], []

    def put(text, keep):
        lines.append(text)
        fixed.append(keep)

    for _ in range(sim.choose(6)):
        what = sim.choose(7)
        if what < 2:
            for _ in range(1 + sim.choose(3)):
                put(sim.pick(PROSE), True)
            put("", True)
        elif what == 2:
            mark = sim.pick(["```", "~~~", "````"])
            put(mark + sim.pick(["", "cpp"]), True)
            for _ in range(sim.choose(4)):
                put(sim.pick(["| x | yy |", "|-|-|", "code", "", "~~" if mark[0] == "`" else "``", "~~~~" if mark[0] == "`" else "```", mark[1:]]), True)
            put(mark, True)
            put("", True)
        elif what == 6 and sim.chance(1, 3):
            for _ in range(50 + sim.choose(300)):
                put("filler " * sim.choose(9), True)
            put("", True)
        else:
            cols, ind = 1 + sim.choose(4), sim.pick(["", "", "  "])
            outer = sim.chance(3, 4) or cols == 1
            neat = sim.chance(1, 3)

            def row(cells):
                pad = lambda c: c if neat else sim.pick(["", " "]) + c + sim.pick(["", " ", "  "])
                s = "|".join(" %s " % c if neat else pad(c) for c in cells)
                put(ind + ("|%s|" % s if outer else s), False)

            w = 3 + sim.choose(3)
            row([("w" * w if neat else sim.pick(WORDS)) for _ in range(cols)])
            row([("-" * w if neat else sim.pick(["-", "---", ":--", "--:", ":-:", "-----"])) for _ in range(cols)])
            for _ in range(sim.choose(5)):
                row([("x" * w if neat else sim.pick(WORDS)) for _ in range(cols + (0 if neat else sim.pick([0, 0, 0, 1, -1])))])
            put("", True)
    return lines, fixed


class Doc:
    def __init__(self, sim, name):
        self.name = name
        lines, self.fixed = document(sim)
        style = sim.pick(["\n", "\n", "\n", "\r\n", "mixed"])
        ends = [sim.pick(["\n", "\r\n"]) if style == "mixed" else style for _ in lines]
        data = b"".join(l.encode() + e.encode() for l, e in zip(lines, ends))
        if data and sim.chance(1, 6):
            data = data.rstrip(b"\r\n")
        self.kind = "file"
        if sim.chance(1, 25):
            self.kind = sim.pick(["missing", "dir", "bad"])
        if self.kind == "bad":
            at = sim.choose(len(data) + 1)
            data = data[:at] + sim.pick([b"\xff", b"\xc3", b"\xed\xa0\x80"]) + b"\n" + data[at:]
            self.fixed = []
        self.link = self.kind == "file" and sim.chance(1, 6)
        self.twin = self.kind == "file" and sim.chance(1, 8)
        self.mode = sim.pick([0o644, 0o644, 0o600, 0o755])
        self.data = data

    def create(self):
        p = os.path.join(box.root, self.name)
        if self.kind == "missing":
            return
        if self.kind == "dir":
            os.mkdir(p)
            return
        t = p
        if self.link:
            t = os.path.join(box.root, "real", self.name)
            os.makedirs(os.path.dirname(t), exist_ok=True)
            os.symlink(os.path.join("real", self.name), p)
        with open(t, "wb") as f:
            f.write(self.data)
        os.chmod(t, self.mode)
        if self.twin:
            os.makedirs(os.path.join(box.root, "real"), exist_ok=True)
            os.link(t, os.path.join(box.root, "real", "twin-" + self.name))

    def now(self, twin=False):
        p = os.path.join(box.root, "real", "twin-" + self.name) if twin else os.path.join(box.root, self.name)
        if self.kind in ("missing", "dir"):
            return None
        try:
            with open(p, "rb") as f:
                return f.read()
        except OSError as e:
            return "unreadable: %s" % e


def listing():
    return sorted(os.path.relpath(os.path.join(d, n), box.root) for d, ds, ns in os.walk(box.root) for n in ds + ns)


def setup(docs):
    box.reset()
    for d in docs:
        d.create()
    return listing()


def judge_transform(sim, doc, new):
    """What alignment may change: spacing and delimiter dashes within table rows."""
    a, b = doc.data.split(b"\n"), new.split(b"\n")
    sim.check(len(a) == len(b), "line-count", "%s: %d lines became %d" % (doc.name, len(a), len(b)))
    squeeze = lambda s: re.sub(rb"[ \t|:-]", b"", s.replace(b"\r", b""))
    for i, (x, y) in enumerate(zip(a, b)):
        if x == y:
            continue
        sim.check(not (i < len(doc.fixed) and doc.fixed[i]), "outside-table", "%s line %d is no table row and was changed: %r -> %r" % (doc.name, i + 1, x, y))
        sim.check(squeeze(x) == squeeze(y), "content", "%s line %d lost or gained content: %r -> %r" % (doc.name, i + 1, x, y))
        sim.check(x.endswith(b"\r") == y.endswith(b"\r"), "line-ending", "%s line %d changed its line ending: %r -> %r" % (doc.name, i + 1, x, y))


def cells_of(line):
    """The texts between unescaped pipes and where these pipes are."""
    text = line.rstrip("\r")
    at, i = [], 0
    while i < len(text):
        if text[i] == "\\":
            i += 1
        elif text[i] == "|":
            at.append(i)
        i += 1
    parts = [text[a + 1:b] for a, b in zip([-1] + at, at + [len(text)])]
    if at and not text[:at[0]].strip():
        parts = parts[1:]
    if len(parts) > 1 and not parts[-1].strip():
        parts = parts[:-1]
    return [c.strip() for c in parts], at, parts


def judge_tables(sim, doc, new):
    """Every table is aligned and says what it said."""
    a, b = doc.data.decode().split("\n"), new.decode().split("\n")
    i = 0
    while i + 1 < len(a):
        delim = cells_of(a[i + 1])[0] if i + 1 < len(doc.fixed) and not doc.fixed[i] and not doc.fixed[i + 1] and "|" in a[i] and "|" in a[i + 1] else [""]
        if not all(re.fullmatch(r":?-+:?", c) for c in delim):
            i += 1
            continue
        j = i
        while j < len(a) and j < len(doc.fixed) and not doc.fixed[j] and "|" in a[j]:
            j += 1
        rows = [(cells_of(a[k])[0], cells_of(b[k])) for k in range(i, j)]
        cols = max(len(r[0]) for r in rows)
        marks = [(c[:1] == ":", c[-1:] == ":") for c in delim] + [(False, False)] * cols
        where = "%s lines %d to %d" % (doc.name, i + 1, j)
        for n, (old, (got, at, parts)) in enumerate(rows):
            sim.check(len(at) == cols + 1 and at == rows[0][1][1], "not-aligned", "%s: pipes of row %d are at %s, those of the first at %s: %r" % (where, n, at, rows[0][1][1], b[i + n]))
            full = lambda r: r + [""] * (cols - len(r))
            if n == 1:
                sim.check([(c[:1] == ":", c[-1:] == ":") for c in full(got)] == marks[:cols] and all(set(c) <= set(":-") and c for c in full(got)), "content", "%s: delimiter row %r became %r" % (where, a[i + n], b[i + n]))
                continue
            sim.check(full(old) == full(got), "content", "%s: row %d has cells %s instead of %s" % (where, n, got, old))
            for c, (left, right), text in zip(parts, marks, full(got)):
                before, after = len(c) - len(c.lstrip(" ")), len(c) - len(c.rstrip(" "))
                ok = abs(before - after) <= 1 if left and right else after == 1 if right else before == 1
                sim.check(ok or not text or text.strip(" ") != c.strip(" "), "not-aligned", "%s: cell %r of row %d is not placed as its delimiter asks" % (where, c, n))
        sim.probe("table judged")
        i = j


def check_modes(sim, docs, where):
    for d in docs:
        p = os.path.join(box.root, d.name)
        if d.kind in ("file", "bad"):
            sim.check(os.path.islink(p) == d.link, "link", "%s: %s %s a link" % (where, d.name, "is no longer" if d.link else "became"))
            mode = os.stat(p).st_mode & 0o7777
            sim.check(mode == d.mode, "mode", "%s: the mode of %s was %o and is %o" % (where, d.name, d.mode, mode))


def body(sim):
    with sim.span():
        docs = [Doc(sim, "d%d.md" % i) for i in range(1 + sim.choose(3))]
    names = [d.name for d in docs]
    args = list(names)
    if sim.chance(1, 8):
        args.append(sim.pick(names))
    args = sim.shuffle(args)
    checking = sim.chance(1, 4)
    sim.ev("documents: " + ", ".join("%s %s%s %d bytes" % (d.name, d.kind, " link" if d.link else "", len(d.data)) for d in docs) + "; args " + " ".join(args))
    keep = lambda n: n in names or n.startswith(("real/d", "real/twin-")) and n.removeprefix("real/").removeprefix("twin-") in names
    known = setup(docs)

    # what an undisturbed run does
    ref = box.run([TOOL] + args)
    bad = [d for d in docs if d.kind != "file"]
    want = {}
    if bad:
        sim.check(ref.status not in (0, 1), "error-status", "status %d although %s cannot be read as a document" % (ref.status, bad[0].name))
        sim.probe("unreadable document")
        setup(docs)
        for d in docs:
            if d.kind == "file":
                box.run([TOOL, d.name])
            want[d.name] = d.now()
    else:
        want = {d.name: d.now() for d in docs}
        changed = [d.name for d in docs if want[d.name] != d.data]
        sim.check(ref.status == (1 if changed else 0), "status", "status %d, changed: %s" % (ref.status, changed))
        for n in changed:
            sim.check(n.encode() in ref.err, "not-named", "%s was rewritten and is not named" % n)
        for d in docs:
            judge_transform(sim, d, want[d.name])
            judge_tables(sim, d, want[d.name])
        if changed:
            sim.probe("rewritten")
        again = box.run([TOOL] + args)
        sim.check(again.status == 0 and all(d.now() == want[d.name] for d in docs), "not-stable", "a second run changed something again, status %d" % again.status)
    check_modes(sim, docs, "undisturbed")
    sim.check(listing() == known, "litter", "undisturbed run left %s" % sorted(set(listing()) - set(known)))

    # the same under faults
    setup(docs)
    plans = faultbox.draw_plans(sim, ref.count)
    process = sim.chance(1, 60)
    res = box.run([TOOL] + (["--check"] if checking else []) + args, plans, as_process=process)
    if process:
        sim.probe("as a real process")
    sim.ev("run%s" % (" --check" if checking else ""))
    faultbox.note(sim, res, keep)
    hard = [f for f in res.fired if f[1] not in (faultbox.SHORT, faultbox.INTR)]
    sim.nontrivial = bool(res.fired)
    sim.state("%s %s %d %s" % (checking, [(f[0], f[1], f[2]) for f in res.fired], res.status, [(d.kind, d.data == want[d.name]) for d in docs]))
    left = {d.name: d.now() for d in docs}
    for d in docs:
        if d.kind in ("missing", "dir"):
            continue
        sim.check(left[d.name] == d.data or (not checking and left[d.name] == want[d.name]), "torn",
                  "%s is neither its old nor its aligned self: %r (old %d bytes)" % (d.name, left[d.name] if isinstance(left[d.name], str) else left[d.name][:80], len(d.data)))
        if d.twin:
            sim.probe("second name")
            t = d.now(twin=True)
            sim.check(t == d.data or (not checking and t == want[d.name]), "torn", "the second name of %s holds neither its old nor its aligned self" % d.name)
    check_modes(sim, docs, "after the run")
    if res.killed:
        sim.probe("killed")
        sim.check(any(f[1] >= faultbox.KILL for f in res.fired), "crash", "died of signal %d" % -res.status)
    else:
        need = [d.name for d in docs if want[d.name] != d.data and d.name in args]
        if res.status in (0, 1):
            sim.check(not bad, "error-status", "status %d although %s cannot be read" % (res.status, bad and bad[0].name))
            sim.check(res.status == (1 if need else 0), "status", "status %d under faults %s, needing alignment: %s" % (res.status, res.fired, need))
            if not checking:
                for n in need:
                    sim.check(left[n] == want[n], "incomplete", "status %d but %s was not aligned" % (res.status, n))
        else:
            sim.check(bad or hard, "error-status", "status %d without a fault" % res.status)
            sim.check(res.err.strip(), "silent", "status %d without a word" % res.status)
            sim.probe("trouble reported")
        if not any(f[0] == "unlink" and f[1] == faultbox.FAIL for f in res.fired):
            sim.check(listing() == known, "litter", "left behind: %s" % sorted(set(listing()) - set(known)))
    # faults stop
    end = box.run([TOOL] + [d.name for d in docs if d.kind == "file"])
    sim.check(end.status in (0, 1), "no-recovery", "status %d once faults stopped" % end.status)
    for d in docs:
        if d.kind == "file":
            sim.check(d.now() == want[d.name], "no-recovery", "%s is not aligned after an undisturbed run" % d.name)
    check_modes(sim, docs, "after recovery")


if __name__ == "__main__":
    sys.exit(core.main("c32", body))
