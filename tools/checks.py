"""Registry: per property, what is built, how many seeded runs per tier, and how the evidence describes it."""
import os

from simbuild import ASAN, REPO, Target, lib_sources

NS = ["-fno-sanitize=all", "-O2"]  # oracle code: never instrumented
SIM = "sim/sim.cc"


class Check:
    def __init__(self, targets=(), batches=None, rule="", real=(), stub=(), state_measure="", level="exploration",
                 assumptions=(), required_probes=(), scripts=None, no_determinism_sample=(), technique="", level_note=""):
        self.targets, self.batches, self.rule = list(targets), batches or {}, rule
        self.real, self.stub, self.state_measure, self.level = list(real), list(stub), state_measure, level
        self.assumptions, self.required_probes = list(assumptions), list(required_probes)
        self.scripts = scripts or {}
        self.no_determinism_sample = set(no_determinism_sample)
        self.technique, self.level_note = technique, level_note


CHECKS = {}
# Scheduler flavour: code under test is instrumented for sim/simsched.cc (its own __tsan_* runtime), the simulator is not.
TSAN = ["-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-fno-builtin-memcpy", "-fno-builtin-memmove", "-fno-builtin-memset",
        "-fno-builtin-memcmp", "-fno-builtin-memchr", "-fno-builtin-strlen", "--param=tsan-distinguish-volatile=1"]


def sched_target(name, plain, instrumented, **kw):
    """plain: oracle/simulator sources; instrumented: harness and real code."""
    def tup(s, extra):
        return (s[0], list(s[1]) + extra) if isinstance(s, tuple) else (s, extra)
    # instrumented objects first: the linker then keeps the instrumented copy of inline library functions
    return Target(name, [tup(s, TSAN) for s in instrumented] + [SIM, "sim/simsched.cc", "sim/alloc.cc"] + list(plain), san=[], opt=["-O1"],
                  flags=["-fno-pie"], link=["-no-pie", "-rdynamic", "-ldl"], **kw)


BASE_ASSUMPTIONS = [
    "g++ 13 on x86-64, libstdc++; sampling, not enumeration: a clean batch is evidence, not proof",
]
TECH = "deterministic simulation: seeded search over %s, forked per run, choice-tape replay and minimisation"


def digest_check(cid, what, real):
    src = lambda: [SIM, ("ref/ref_digest.cc", NS), ("harness/digest_stream.cc", ["-DPROP_" + cid])]
    CHECKS[cid] = Check(
        targets=[Target(cid.lower() + "_asan", src()), Target(cid.lower() + "_plain", src(), san=[], opt=["-O2"])],
        batches={"quick": [(cid.lower() + "_asan", 6000, 20), (cid.lower() + "_plain", 60000, 20)],
                 "thorough": [(cid.lower() + "_asan", 120000, 200), (cid.lower() + "_plain", 2000000, 400)]},
        rule="each run is a history over up to 6 live streams (update with boundary-biased chunk sizes, empty update, peek, fork, "
             "assign, move, close, abandon) drawn from one seed; every peek/close is compared with an independent reference over "
             "the concatenated bytes. Non-trivial: at least two non-empty updates; distinct by hash of the full event trace",
        real=real, stub=["reference digests (oracle) are independent code in ref/"],
        state_measure="distinct (algorithm, bytes seen mod block, blocks seen capped at 40, chunk size mod block) after an update",
        assumptions=BASE_ASSUMPTIONS + ["messages up to 20 kB per stream in the history runs (one run in about 700: up to 200 kB)"],
        required_probes=["run with mid-stream finalise", "run with fork/assign"],
        technique=TECH % "stream histories (chunking, peeks, forks, interleaving)",
        level_note=what)


def long_target(cid):
    return Target(cid.lower() + "_long", [SIM, ("harness/long_stream.cc", ["-DPROP_" + cid])], san=[], opt=["-O2"],
                  sim_flags=["--cpu", "300", "--wall", "600", "--min-time", "200"])


digest_check("C01", "Seeded exploration of streaming histories of all 15 unkeyed algorithms, two interfaces each, against slow "
             "references validated with hashlib; trusts the references; ASAN/UBSAN flavour catches memory errors.",
             ["mbo/digest/digest*.h (all algorithms, Streamer)"])
digest_check("C02", "Seeded exploration of keyed streaming histories (HMAC over 15 algorithms, keyed BLAKE2b, keyed/derived BLAKE3) "
             "with boundary-biased key lengths, against independent references.",
             ["mbo/digest/digest_hmac.h", "mbo/digest/digest_blake2b.h", "mbo/digest/digest_blake3.h", "all inner digests"])
digest_check("C03", "Seeded exploration of absorb schedules x output lengths (14 per function, around squeeze-block boundaries) against "
             "independent references, with the prefix law checked at every peek.",
             ["mbo/digest/digest_shake.h", "mbo/digest/digest_sha3.h", "mbo/digest/digest_blake3.h"])
CHECKS["C03"].rule = ("each run is a history over up to 6 live extendable-output streams (as C01: chunked updates, peeks, forks, assignments, moves); every "
                      "peek/close asks 14 output lengths around the squeeze block of that function, compares each with an independent reference "
                      "and checks that shorter outputs are prefixes of longer ones. Non-trivial: at least two non-empty updates; distinct by event trace hash")

_src = lambda: [SIM, ("ref/ref_digest.cc", NS), "harness/hash_stream.cc"]
CHECKS["C04"] = Check(
    targets=[Target("c04_asan", _src()), Target("c04_plain", _src(), san=[], opt=["-O2"])],
    batches={"quick": [("c04_asan", 8000, 20), ("c04_plain", 80000, 20)],
             "thorough": [("c04_asan", 150000, 200), ("c04_plain", 2500000, 400)]},
    rule="each run is a history over up to 6 live hash streams with arbitrary seeds (update with boundary-biased sizes, empty update, "
         "peek, fork, assign, move, close), every peek compared with the one-shot value and, for SipHash-2-4 and XXH64, an independent "
         "reference; one-shot values of 10 algorithms are taken from exact-size allocations and again amid other bytes at another "
         "alignment. Non-trivial: at least two non-empty updates; distinct by event trace hash",
    real=["mbo/hash/hash.h", "mbo/hash/hash_mumbo.h", "mbo/hash/hash_siphash.h", "mbo/hash/hash_xxh64.h", "mbo/hash/hash_extra.h and the other one-shot algorithms"],
    stub=["reference SipHash/XXH64 (oracle) in ref/"],
    state_measure="distinct (algorithm, bytes seen mod block, blocks seen capped at 40, chunk size mod block) after an update",
    assumptions=BASE_ASSUMPTIONS + ["for the in-house hashes the one-shot value is the specification; only streaming agreement and bounds are judged"],
    required_probes=["run with mid-stream finalise", "run with fork/assign"],
    technique=TECH % "stream histories (chunking, peeks, forks, interleaving, seeds)",
    level_note="Seeded exploration; SipHash/XXH64 judged against independent references, in-house hashes against their own one-shot value.")

for _cid, _q, _t in (("C01", 8, 48), ("C04", 4, 32)):
    _c = CHECKS[_cid]
    _c.targets.append(long_target(_cid))
    _c.batches["quick"].append((_cid.lower() + "_long", _q, 120))
    _c.batches["thorough"].append((_cid.lower() + "_long", _t, 900))
    _c.no_determinism_sample.add(_cid.lower() + "_long")
    _c.rule += "; plus streams of 2^32+2^20+77 bytes per algorithm in random huge chunks against golden values"

CHECKS["C05"] = Check(
    targets=[sched_target("c05", [("ref/ref_digest.cc", NS)], ["harness/digest_threads.cc"])],
    batches={"quick": [("c05", 30000, 40)], "thorough": [("c05", 1500000, 700)]},
    rule="each run: 2-3 simulated threads do one-shot digests/hashes, feed own streams, finalise or copy shared const streams and render "
         "hex; every memory access of the real code is a scheduling point, the preemption style (mean 4 to 40000 accesses between switches) "
         "and every switch target come from the seed; a vector-clock detector reports unsynchronised conflicting accesses and all results "
         "are compared with references after the join. Non-trivial: at least two context switches; distinct by event trace hash "
         "(which contains the switch points)",
    real=["mbo/digest/*.h", "mbo/hash/*.h"], stub=["thread scheduler (real pthreads, simulated schedule)", "reference digests in ref/"],
    state_measure="distinct (algorithm, operation, switches so far capped at 7)",
    assumptions=BASE_ASSUMPTIONS + ["sequentially consistent interleavings plus happens-before race detection; accesses inside libstdc++.so/libc are not seen"],
    required_probes=["run with shared const stream"],
    technique=TECH % "thread interleavings at memory-access granularity",
    level_note="Seeded schedules with race detection over the real header code.")

CHECKS["C06"] = Check(
    targets=[sched_target("c06", [], ["harness/demangle.cc", os.path.join(REPO, "mbo/log/demangle.cc")])],
    batches={"quick": [("c06", 40000, 30)], "thorough": [("c06", 2000000, 600)]},
    rule="each run demangles 1-18 names (grammar-generated manglings, mutations, arbitrary bytes, polymorphic objects) on 1-3 simulated threads "
         "while the n-th C-level allocation (or every one from the n-th) fails; results are compared with an undisturbed demangling, blocks are "
         "audited. Non-trivial: something demangled and a failure or context switch happened; distinct by event trace hash",
    real=["mbo/log/demangle.h", "mbo/log/demangle.cc", "libstdc++ __cxa_demangle"], stub=["allocator failure seam", "thread scheduler"],
    state_measure="distinct (name, demangled or passed through)",
    assumptions=BASE_ASSUMPTIONS + ["operator new does not fail (the build has no exceptions); libstdc++'s own demangling of a name is taken as its demangled form"],
    required_probes=["allocation failed while demangling", "concurrent run"],
    technique=TECH % "allocation-failure points and thread interleavings",
    level_note="Seeded allocation failures, audit and schedules over the real function.")

CHECKS["C07"] = Check(
    targets=[Target("c07_asan", [SIM, "harness/scoped_stream.cc"]), sched_target("c07_sched", [], [("harness/scoped_stream.cc", ["-DSCHED"])])],
    batches={"quick": [("c07_asan", 12000, 25), ("c07_sched", 12000, 20)], "thorough": [("c07_asan", 400000, 350), ("c07_sched", 400000, 350)]},
    rule="each run: scoped streams of 8 type variants are opened over 3-5 sinks (incl. std::cerr and std::cout), fed pieces in any interleaving, "
         "closed in any order, nested inside each other's streamed expressions, while sinks fail after n bytes, fail a sync, write short or "
         "recover; after every operation the bytes at every sink equal the model. Sched flavour: 2-3 threads with own sinks. "
         "Non-trivial: at least two records closed; distinct by event trace hash",
    real=["mbo/log/scoped_stream.h", "mbo/log/scoped_log_check.h", "libstdc++ ostream"], stub=["sink stream buffers (fault seam)", "thread scheduler (sched flavour)"],
    state_measure="distinct (record tail, sink, sink good) at close",
    assumptions=BASE_ASSUMPTIONS + ["sinks are not shared between threads, their format flags are default and their exception mask is empty"],
    required_probes=["sink failed in the middle of a record", "failed sink recovered", "threads interleaved"],
    technique=TECH % "scope histories, sink faults and thread interleavings",
    level_note="Seeded histories with byte-level sink faults over the real class template.")

CHECKS["C08"] = Check(
    targets=[Target("c08", [SIM, "harness/log_check.cc"], link=["-Wl,--wrap=quick_exit,--wrap=_Exit,--wrap=_exit,--wrap=exit"])],
    batches={"quick": [("c08", 20000, 30)], "thorough": [("c08", 800000, 600)]},
    rule="each run: up to 12 passing checks, user output and open scopes over std::cerr, std::cout and an own sink (buffered or not, unitbuf or "
         "not, short writes, failing after n bytes), then one failing check of 7 kinds; process end is intercepted and judged: status 1, exactly "
         "one complete record at the device, nothing elsewhere. One run in ten is a real process with a real descriptor. "
         "Non-trivial: a check failed; distinct by event trace hash",
    real=["mbo/log/scoped_log_check.h", "mbo/log/scoped_stream.h", "libstdc++ ostream", "real quick_exit in one run of ten"],
    stub=["quick_exit/exit/_Exit seam (link --wrap)", "sink stream buffers (fault seam)"],
    state_measure="distinct (kind of check, buffer capacity, healthy, complete, stuttering, record size)",
    assumptions=BASE_ASSUMPTIONS + ["completeness of the record is required while standard error accepts bytes (possibly few at a time); on a hard write error only a prefix and status 1 are"],
    required_probes=["standard error failed inside the record", "real process end"],
    technique=TECH % "check histories, buffering states and stderr faults, process end intercepted",
    level_note="Seeded histories; process end and standard error behind seams, plus real processes.")

def script_check(cid, script, **kw):
    CHECKS[cid] = Check(scripts={cid.lower(): ["python3", "-B", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "pysim", script)]}, **kw)


script_check(
    "C28", "cache_cleanup_sim.py",
    batches={"quick": [("c28", 40000, 25)], "thorough": [("c28", 3000000, 600)]},
    rule="each run: workflows saving caches under overlapping key prefixes at irregular instants (1 ns to 1 h apart, three renderings of creation "
         "times) and up to 3 cleanup runs (list, real cache_cleanup.py, delete one by one) interleaved step by step; listings in any order, failing "
         "listings and deletions, runs cancelled half way; every selection is judged against the listing, the newest cache is never gone, and one "
         "undisturbed cleanup at the end converges. Non-trivial: a cleanup saw at least three matching caches; distinct by event trace hash",
    real=["tools/cache_cleanup.py (main, in process; one call in 400 as a process)"], stub=["GitHub cache service, gh CLI rendering, workflow runner"],
    state_measure="distinct (matching caches, other caches, distinct creation instants) per cleanup",
    assumptions=["creation times in RFC 3339 UTC as gh prints them (Go RFC3339Nano), or fixed width", "caches created in the same instant are only cleaned by one run at a time"],
    required_probes=["concurrent cleanup runs", "converged"],
    technique=TECH % "interleavings of saves, cleanup steps and service faults",
    level_note="Seeded exploration of save/list/delete interleavings with service faults around the real selection tool.")
script_check(
    "C29", "coverage_sim.py",
    batches={"quick": [("c29", 3000, 45)], "thorough": [("c29", 1000000, 700)]},
    rule="each run: coverage reports of up to 8 targets, re-run attempts, equal creation times, legacy reports; up to 4 publishers performing the "
         "steps of coverage_pages.yml on their own checkout, interleaved; reports delayed, duplicated, lost, runs cancelled between steps, pushes "
         "refused when the branch moved; after every push the site and its overview must show the newest report accepted per target. "
         "Non-trivial: at least three reports published; distinct by event trace hash",
    real=["tools/coverage_index.py (report, metadata, newer, site; in process, one call in 2000 as a process)"],
    stub=["git branch, checkout and push", "GitHub workflow events and runner"],
    state_measure="distinct (ordering of candidate and current per key component; targets and publications so far)",
    assumptions=["workflow times in the fixed-width form YYYY-MM-DDTHH:MM:SSZ", "the publication steps of coverage_pages.yml are mirrored by the harness, not parsed from it"],
    required_probes=["older report ignored", "replayed report accepted", "newer report accepted", "legacy report given metadata"],
    technique=TECH % "arrival orders, step interleavings and publication faults",
    level_note="Seeded exploration of publication schedules with lost, duplicated, delayed reports around the real index tool.")
script_check(
    "C32", "align_sim.py",
    batches={"quick": [("c32", 9000, 30)], "thorough": [("c32", 500000, 600)]},
    rule="each run: the tool on 1-3 documents (tables neat or not, code fences, CRLF, mixed line ends, links, modes, missing, directories, bad UTF-8) in a forked "
         "process of its own, once undisturbed and once with up to three faults at any file operation (open, create, read, write, close, stat, rename, chmod, "
         "unlink: error, short, interrupted) or killed before, after or half way through one; every document must be its old or its aligned self, the status "
         "must say which, and an undisturbed run afterwards converges. Non-trivial: a fault fired; distinct by event trace hash",
    real=["tools/align_markdown_tables.py (as __main__ in a forked process; one run in 60 as an executed process)", "CPython file objects, tempfile, shutil"],
    stub=["libc file functions (pysim/pyfault.c passes them on to a tmpfs scratch tree unless the plan says otherwise)"],
    state_measure="distinct (mode, faults fired, exit status, documents aligned or not)",
    assumptions=["a killed process keeps what its system calls wrote (no power loss)", "a table is judged cell by cell: same cells, pipes of one table in the same columns, delimiter marks and text placement kept"],
    required_probes=["rewritten", "killed", "trouble reported", "unreadable document", "table judged", "second name"],
    technique=TECH % "fault and kill sequences at every file operation of the aligner",
    level_note="Seeded fault and kill sequences at the libc seam around the real tool.")
script_check(
    "C33", "gate_sim.py",
    batches={"quick": [("c33", 9000, 35)], "thorough": [("c33", 500000, 700)]},
    rule="each run: one gate or report tool on a generated tree with or without violations of its rule, once undisturbed (verdict, findings, counts and tables must be the planted ones) and "
         "once with up to three faults at its file operations or standard output (error, short, interrupted) and/or one failing helper command (git, grep, sed, tee, "
         "mktemp, clang-tidy killed, failing, not found, output cut); exit 0 is only acceptable with the undisturbed answer and outputs. Non-trivial: a fault fired; "
         "distinct by event trace hash",
    real=["tools/check_cc_library_tested.py", "tools/check_cc_target_naming.py", "tools/check_headers_claimed.py", "tools/check_status_assert.py", "tools/build_rules.py",
          "tools/coverage.py", "tools/coverage_sources.py", "tools/coverage_index.py", "tools/cache_cleanup.py", ".pre-commit/check_header_guards.py", ".pre-commit/check_done_gate.py", "tools/check_test_matchers.sh, tools/clang_tidy.sh and .pre-commit/check_version.sh under bash, grep, sed"],
    stub=["git and clang-tidy (stand-in scripts)", "libc file functions (pysim/pyfault.c passes them on to a tmpfs scratch tree unless the plan says otherwise)"],
    state_measure="distinct (tool, faults fired, failing helper, undisturbed and faulted exit status)",
    assumptions=["lcov reports, policies and diffs of the forms the repository produces", "a helper that exits 0 delivered its whole output"],
    required_probes=["check_cc_library_tested.py fails closed", "check_cc_target_naming.py fails closed", "check_headers_claimed.py fails closed", "coverage.py fails closed", "check_cc_library_tested.py refuses",
                     "coverage.py judged: thresholds met", "coverage.py judged: thresholds missed", "coverage_sources.py judged", "report page judged"],
    technique=TECH % "fault sequences at every file operation and helper command of the gates",
    level_note="Seeded fault sequences at the libc seam and the command seam around the real tools.")

script_check(
    "C34", "release_sim.py",
    batches={"quick": [("c34", 1500, 40)], "thorough": [("c34", 60000, 700)]},
    rule="each run: one world (a bare origin repository, a maintainer's checkout that is ready or has one of 15 flaws: wrong branch, behind, ahead, dirty, version mismatch, "
         "existing tag, ...; stray tags) and one run of trigger_release.sh with up to one command it calls killed, failing, failing after its effect, cut in half, missing, "
         "failing every time, the script killed there, or another maintainer pushing main or the tag at that moment; or one run of release_prep.sh with one failing command. "
         "Afterwards the origin's refs are judged; one run in four repeats the script undisturbed. Non-trivial: a fault fired or a flaw was present; distinct by event trace hash",
    real=["tools/trigger_release.sh", ".github/workflows/release_prep.sh", "bash, git, sed, awk, patch, tar"],
    stub=["gh and pull requests (stand-in script squashing onto the bare origin)", "gpg (stand-in)", "the remote (a bare repository on tmpfs)"],
    state_measure="distinct (flaw, command disturbed and how, exit status, refs published)",
    assumptions=["a command that exits 0 did its work", "a killed script leaves what its commands already did"],
    required_probes=["tag published", "refused", "released", "bump merged", "archive made", "no archive, and it says so"],
    technique=TECH % "command failures, kills and concurrent pushes around the release scripts",
    level_note="Seeded fault sequences at the command seam around the real scripts and a real git origin.")

script_check(
    "C36", "workflow_sim.py",
    batches={"quick": [("c36", 2400, 45)], "thorough": [("c36", 100000, 700)]},
    rule="each run: one shell step of cache_cleanup.yml (a closed pull request of a branch or of main, or the sweep of old ones) over up to 13 caches of 7 branches, or both "
         "steps of coverage_pages.yml over a retained branch of up to 7 reports (some from before metadata, some in legacy directories), a finished run (release, main, branch "
         "with or without pull requests) and its artifact (claiming its own or another or a malformed target; files downloaded in the checkout's second or later); with up to one "
         "command (gh, git, rsync, python3, find, mkdir, date) killed, failing, failing after its effect, cut in half, missing, failing every time, the step cancelled there, or a "
         "cache saved / the branch pushed by somebody else at that moment. Afterwards the service and the origin are judged. Non-trivial: a fault fired, caches were deleted, or "
         "the report is legacy or refused; distinct by event trace hash",
    real=["the run steps of .github/workflows/cache_cleanup.yml and coverage_pages.yml under bash -e -o pipefail", "tools/cache_cleanup.py and tools/coverage_index.py as processes",
          "git, jq, rsync, find", "a bare origin repository"],
    stub=["gh and the cache and pull request services (stand-in script over real jq)", "date (simulated clock)", "checkout, download-artifact, upload and deploy actions"],
    state_measure="distinct (step, branch or target kind, command disturbed and how, exit status, outcome)",
    assumptions=["a command that exits 0 did its work", "a cancelled step leaves what its commands already did", "branch names without white space", "steps are found by their order in the workflow files"],
    required_probes=["cleanup of main", "cleanup of a branch", "cleanup of old pull requests", "service failure reported", "cancelled", "published", "older report ignored", "refused",
                     "failed, branch intact", "somebody else pushed", "legacy directory moved", "no destination", "damaged metadata noticed"],
    technique=TECH % "command failures, cancellations and concurrent changes around the workflow steps",
    level_note="Seeded fault sequences at the command seam around the real workflow shell, with a real git origin.")

# ---- Flavour C: simulated file system (sim/vfs.cc) -------------------------------------------------------------------
VFS = [SIM, ("sim/vfs.cc", NS)]
SHIM = [("shim/absl_shim/shim.cc", ["-O1"])]
RE2 = [("shim/re2/re2.cc", ["-fno-sanitize=all", "-O2"])]


def vfs_target(name, sources, re2=False, **kw):
    kw.setdefault("link", [])
    kw["link"] = kw["link"] + ["-rdynamic", "-ldl"]
    return Target(name, VFS + SHIM + (RE2 if re2 else []) + list(sources), absl=True, **kw)


def R(*paths):
    return [os.path.join(REPO, p) for p in paths]


SHIM_ASSUMPTION = ("absl and RE2 are stand-ins (shim/), validated with the repository's own tests; file functions of libc are simulated for "
                   "paths below /sim, libstdc++'s streams and std::filesystem are real")
for _cid, _what, _rule in (
        ("C10", "whole-file reads", "reads whole files, probes readability and times"),
        ("C11", "writes", "writes, overwrites and reads back files"),
        ("C12", "bounded line reads", "reads the first N lines of files"),
        ("C13", "artefacts", "reads artefacts (whole or first N lines, with or without time)")):
    CHECKS[_cid] = Check(
        targets=[vfs_target(_cid.lower(), [("harness/file_io.cc", ["-DPROP_" + _cid])] + R("mbo/file/file.cc", "mbo/file/artefact.cc"))],
        batches={"quick": [(_cid.lower(), 16000, 25)], "thorough": [(_cid.lower(), 800000, 500)]},
        rule="each run " + _rule + " in a history of 1-8 calls over up to 4 files (sizes around buffer boundaries, links, odd targets: directory, missing, "
             "loop, dangling, unreadable, fifo) while the simulated system fails any one call, many calls, gives short reads/writes, interrupts, bad "
             "sectors, a full disk, close errors, or files that grow and shrink under the reader; OK must mean exact, healthy must mean OK, nothing stays "
             "open. Non-trivial: a hard fault fired or the target was unreadable or changing; distinct by event trace hash",
        real=["mbo/file/file.cc", "mbo/file/artefact.cc", "libstdc++ fstream and filesystem"], stub=["libc file functions below /sim (sim/vfs.cc)", "absl (shim/)"],
        state_measure="distinct (operation, first faults, operation count, size class)",
        assumptions=BASE_ASSUMPTIONS + [SHIM_ASSUMPTION],
        required_probes=["write refused"] if _cid == "C11" else ["read refused under fault", "not a readable file"],
        technique=TECH % ("fault sequences at every system call of " + _what),
        level_note="Seeded fault sequences at the libc seam around the real file functions.")

for _cid, _what in (("C16", "compute mode"), ("C17", "check mode")):
    CHECKS[_cid] = Check(
        targets=[vfs_target(_cid.lower(), [("ref/ref_digest.cc", NS), ("harness/digest_cli.cc", ["-DPROP_" + _cid]), (os.path.join(REPO, "mbo/digest/digest_main.cc"), ["-Dmain=digest_main_entry"])]
                            + R("mbo/digest/checksum.cc") + lib_sources("mbo/strings"), re2=True)],
        batches={"quick": [(_cid.lower(), 12000, 30)], "thorough": [(_cid.lower(), 600000, 600)]},
        rule="each run calls the tool's real main once in " + _what + " with 1-5 inputs (files around the 64 KiB read chunk, directories, missing, unreadable, loops, "
             "standard input) under one of 17 algorithms and any flags, while any call on inputs, lists or standard output fails, reads short or is interrupted; "
             "stdout, stderr and exit status are judged line by line. Non-trivial: a hard fault fired or an input failed; distinct by event trace hash",
        real=["mbo/digest/digest_main.cc (main)", "mbo/digest/checksum.cc", "mbo/digest/*.h", "libstdc++ streams"],
        stub=["libc file functions and standard streams (sim/vfs.cc)", "absl (shim/)", "reference digests in ref/"],
        state_measure="distinct (algorithm or flags, first faults, exit status, lines)",
        assumptions=BASE_ASSUMPTIONS + [SHIM_ASSUMPTION],
        required_probes=["input reported unreadable"] if _cid == "C16" else ["listed file reported unreadable", "verified"],
        technique=TECH % ("fault sequences at every system call of the digest tool in " + _what),
        level_note="Seeded fault sequences at the libc seam around the real main().")

CHECKS["C14"] = Check(
    targets=[vfs_target("c14", ["harness/glob_walk.cc"] + R("mbo/file/glob.cc", "mbo/types/stringify.cc") + lib_sources("mbo/status", "mbo/strings"), re2=True)],
    batches={"quick": [("c14", 16000, 30)], "thorough": [("c14", 900000, 600)]},
    rule="each run walks one random tree (nested directories, links to files/directories/nowhere/self, pipes, any listing order, known or unknown "
         "entry types, forbidden directories) with one pattern and options, while opening or reading directories and examining entries fails, entries "
         "vanish or appear, and the visitor stops, fails or declines recursion; visited set, order of ending, depth, relative paths, sizes and status are "
         "judged against an independent matcher. Non-trivial: a fault fired or the tree could change; distinct by event trace hash",
    real=["mbo/file/glob.cc", "mbo/file/glob.h", "libstdc++ filesystem iterators"], stub=["libc file functions below /sim (sim/vfs.cc)", "absl and RE2 (shim/)"],
    state_measure="distinct (pattern, options, entries visited, faults)",
    assumptions=BASE_ASSUMPTIONS + [SHIM_ASSUMPTION, "directory links are not followed (the default); patterns use at most one '**' component; a failed type query of one entry (stat) may keep libstdc++ from descending without an error"],
    required_probes=["complete walk", "walk ended with a status", "visitor ended the walk with an error"],
    technique=TECH % "directory fault sequences, concurrent tree changes and visitor decisions",
    level_note="Seeded trees, visitors and directory faults at the libc seam around the real walk.")

CHECKS["C15"] = Check(
    targets=[vfs_target("c15", ["harness/ini_io.cc"] + R("mbo/file/file.cc", "mbo/file/ini/ini_file.cc") + lib_sources("mbo/status"))],
    batches={"quick": [("c15", 16000, 25)], "thorough": [("c15", 900000, 500)]},
    rule="each run: up to 14 operations (set, look up, write, read, files written by others in the free form of the format, copies) over two INI "
         "objects and two files, reads and writes under any fault incl. full disk and close errors; every object is compared with a map model after each "
         "step. Non-trivial: a hard fault fired; distinct by event trace hash",
    real=["mbo/file/ini/ini_file.cc", "mbo/file/file.cc"], stub=["libc file functions below /sim (sim/vfs.cc)", "absl (shim/)"],
    state_measure="distinct (groups, values, faults)",
    assumptions=BASE_ASSUMPTIONS + [SHIM_ASSUMPTION, "keys are not empty, contain no '=', do not start a comment or a group line; values carry no outer whitespace or line feeds"],
    required_probes=["write refused", "read refused", "free form file"],
    technique=TECH % "operation histories and I/O fault sequences",
    level_note="Seeded histories at the libc seam around the real class, against a map model.")
DIFF_SRC = lambda: lib_sources("mbo/diff", "mbo/diff/impl", "mbo/diff/internal", "mbo/strings", "mbo/status")
CHECKS["C18"] = Check(
    targets=[vfs_target("c18", ["harness/diff_cli.cc", (os.path.join(REPO, "mbo/diff/diff_main.cc"), ["-Dmain=diff_main_entry"])]
                        + R("mbo/file/file.cc", "mbo/file/artefact.cc") + DIFF_SRC(), re2=True)],
    batches={"quick": [("c18", 14000, 30)], "thorough": [("c18", 700000, 600)]},
    rule="each run calls the tool's real main once on two texts (equal, edited, unrelated; odd line contents, missing final newlines, buffer-sized lines) "
         "with any algorithm, format, context, line limit and whitespace/case options while any call on the inputs or standard output fails; status and "
         "output are judged against equality of the texts held in memory, and unified output is applied as a patch. Non-trivial: a hard fault fired or an "
         "input was unreadable; distinct by event trace hash",
    real=["mbo/diff/diff_main.cc (main)", "mbo/diff/**", "mbo/file/artefact.cc", "mbo/file/file.cc"],
    stub=["libc file functions and standard streams (sim/vfs.cc)", "absl and RE2 (shim/)"],
    state_measure="distinct (algorithm, format, first faults, exit status)",
    assumptions=BASE_ASSUMPTIONS + [SHIM_ASSUMPTION, "for options with their own notion of equality (regular expressions, comments, blank lines) equality is what Diff::FileDiff computes in memory"],
    required_probes=["trouble reported", "difference applied as a patch"],
    technique=TECH % "fault sequences at every system call of the diff tool",
    level_note="Seeded fault sequences at the libc seam around the real main().")

CHECKS["C30"] = Check(
    targets=[vfs_target("c30", ["harness/glob_cli.cc", (os.path.join(REPO, "mbo/file/glob_main.cc"), ["-Dmain=glob_main_entry"])]
                        + R("mbo/file/glob.cc", "mbo/types/stringify.cc") + lib_sources("mbo/status", "mbo/strings"), re2=True)],
    batches={"quick": [("c30", 24000, 30)], "thorough": [("c30", 700000, 600)]},
    rule="each run calls the tool's real main once on one random tree (as for C14) with a glob or RE2 pattern, an absolute, relative or current root and any "
         "display flags, while opening or reading directories, examining entries or writing to standard output fails and entries vanish or appear; the "
         "output is read back line by line: entries, types, sizes, depths, order, alignment and every summary line are judged against the tree and an "
         "independent matcher. Non-trivial: a fault fired, the tree changed or there was no such directory; distinct by event trace hash",
    real=["mbo/file/glob_main.cc (main)", "mbo/file/glob.cc", "mbo/strings/numbers.h", "libstdc++ <filesystem>"],
    stub=["libc directory and file functions and standard streams (sim/vfs.cc)", "absl and RE2 (shim/)"],
    state_measure="distinct (command line, faults, exit status)",
    assumptions=BASE_ASSUMPTIONS + [SHIM_ASSUMPTION, "links to directories are not followed (the tool cannot ask for it)"],
    required_probes=["trouble reported", "complete listing"],
    technique=TECH % "fault sequences at every system call of the glob tool and changes of the tree during the walk",
    level_note="Seeded fault sequences at the libc seam around the real main().")

CHECKS["C31"] = Check(
    targets=[vfs_target("c31", ["harness/hash_cli.cc", (os.path.join(REPO, "mbo/hash/hash_tool.cc"), ["-Dmain=hash_main_entry"])] + lib_sources("mbo/strings"), re2=True)],
    batches={"quick": [("c31", 16000, 25)], "thorough": [("c31", 700000, 600)]},
    rule="each run calls the tool's real main once with one algorithm on one argument or on standard input holding any lines (text, DOS text, NUL bytes, "
         "buffer-sized, without final newline, a directory) while reading standard input or writing standard output fails, is short or interrupted; "
         "status, stdout and stderr are judged against the one-shot hashes of the lines. Non-trivial: a hard fault fired or standard input was a directory; "
         "distinct by event trace hash",
    real=["mbo/hash/hash_tool.cc (main)", "mbo/hash/*.h", "mbo/container/limited_map.h"],
    stub=["libc standard streams (sim/vfs.cc)", "absl (shim/)"],
    state_measure="distinct (algorithm, faults, exit status, input by argument)",
    assumptions=BASE_ASSUMPTIONS + [SHIM_ASSUMPTION, "the hash of one line is what GetHash64 computes in memory (C04 judges it)"],
    required_probes=["trouble reported", "complete"],
    technique=TECH % "fault sequences at every read and write of the hash tool",
    level_note="Seeded fault sequences at the libc seam around the real main().")

MOPE_LIB = lambda: lib_sources("mbo/strings", "mbo/status")
CHECKS["C19"] = Check(
    targets=[vfs_target("c19", ["harness/mope_cli.cc", (os.path.join(REPO, "mbo/mope/mope_main.cc"), ["-Dmain=mope_main_entry"])]
                        + R("mbo/mope/mope.cc", "mbo/mope/ini.cc", "mbo/file/file.cc", "mbo/file/artefact.cc", "mbo/file/ini/ini_file.cc") + MOPE_LIB(), re2=True)],
    batches={"quick": [("c19", 16000, 30)], "thorough": [("c19", 800000, 600)]},
    rule="each run calls the tool's real main once on a generated template (values, sections, ranges, lists, comments, settings, own-line tags) with --set "
         "and INI data, to a file or standard output, while any call on template, INI file, output or standard output fails, reads or writes short, is "
         "interrupted or finds the disk full; exit status, diagnostics and output are judged against a reference expansion of the syntax tree. "
         "Non-trivial: a hard fault fired or a file was unusable; distinct by event trace hash",
    real=["mbo/mope/mope_main.cc (main)", "mbo/mope/mope.cc", "mbo/mope/ini.cc", "mbo/file/**", "mbo/strings/parse.cc"],
    stub=["libc file functions and standard streams (sim/vfs.cc)", "absl and RE2 (shim/)"],
    state_measure="distinct (first faults, destination, empty expansion, top-level nodes)",
    assumptions=BASE_ASSUMPTIONS + [SHIM_ASSUMPTION, "values given by --set contain neither ',' nor '='; sections of one name are not nested in each other; ranges stay below 100 steps"],
    required_probes=["trouble reported", "expansion in a file"],
    technique=TECH % "fault sequences at every system call of the template tool",
    level_note="Seeded fault sequences at the libc seam around the real main(), against a reference expansion.")

CHECKS["C20"] = Check(
    targets=[sched_target("c20", SHIM + RE2,
                          ["harness/mope_conc.cc"] + R("mbo/mope/mope.cc") + MOPE_LIB(), absl=True)],
    batches={"quick": [("c20", 6000, 30)], "thorough": [("c20", 400000, 600)]},
    rule="each run builds one template and expands generated texts on it through its const interface: sequences with failing expansions in between, and "
         "2-3 simulated threads at once (same or different texts, with or without context data); every memory access of the real code is a scheduling "
         "point, a vector-clock detector reports unsynchronised conflicting accesses, and every result is compared with a reference expansion. "
         "Non-trivial: at least two context switches; distinct by event trace hash",
    real=["mbo/mope/mope.cc", "mbo/mope/mope.h", "mbo/container/any_scan.h", "mbo/strings/parse.cc"], stub=["thread scheduler", "absl and RE2 (shim/)"],
    state_measure="distinct (sequence: text size, status; parallel: switches, threads)",
    assumptions=BASE_ASSUMPTIONS + [SHIM_ASSUMPTION, "accesses inside libstdc++.so, libc and the RE2 stand-in are not scheduling points"],
    required_probes=["failing expansion in the history", "parallel expansions"],
    technique=TECH % "histories of expansions and thread interleavings at memory-access granularity",
    level_note="Seeded histories and schedules over the real const Expand, with race detection and a reference expansion.")

FAULTY = "operation histories with element operations failing at any point"
CHECKS["C21"] = Check(
    targets=[Target("c21", [SIM, "harness/limited_vec.cc"] + SHIM + R("mbo/log/demangle.cc"), exceptions=True, absl=True, require_throws=True)],
    batches={"quick": [("c21", 40000, 30)], "thorough": [("c21", 3000000, 600)]},
    rule="each run: 5-24 operations (construct, copy, move, assign, swap, across capacities, insert, emplace, append, erase, resize, assign ranges, misuse, "
         "destroy; arguments may be own elements) over four vectors of two capacities (1-17) whose elements record construction and destruction and fail at "
         "a chosen operation; contents, results, accessors and the set of live elements are compared with std::vector after each step. Non-trivial: at "
         "least four steps and a failed or rejected operation; distinct by event trace hash",
    real=["mbo/container/limited_vector.h", "mbo/config/require.h (throwing configuration)"], stub=["element type (harness/elem.h)", "absl (shim/)"],
    state_measure="distinct (operation, size, position, outcome)",
    assumptions=BASE_ASSUMPTIONS + [SHIM_ASSUMPTION, "moves of elements do not fail; elements do not fail inside operations declared noexcept"],
    required_probes=["argument is an own element", "self-assignment", "rejected bulk operation", "operation on a full vector", "from a smaller vector"],
    technique=TECH % FAULTY,
    level_note="Seeded histories with element failures over the real container, against std::vector and a registry of live elements.")

CHECKS["C22"] = Check(
    targets=[Target("c22", [SIM] + ["harness/limited_ord%s.cc" % x for x in ("", "_sets", "_maps", "_lsets", "_lmaps")] + SHIM + R("mbo/log/demangle.cc"),
                    exceptions=True, absl=True, require_throws=True)],
    batches={"quick": [("c22", 40000, 30)], "thorough": [("c22", 3000000, 600)]},
    rule="each run: 6-65 operations (construct, copy, move, assign, swap, across capacities, insert one and many, emplace, try_emplace, insert_or_assign, [], "
         "erase in every form, every lookup with own, equal and foreign keys, comparison, misuse, destroy) over four sets or maps: 14 configurations of "
         "capacity (1-20, below and above the unroll limit), comparator (less, three-way transparent, stateful) and options; elements record construction "
         "and destruction and fail at a chosen operation; compared with std::map after each step. Non-trivial: at least four steps and a failed or rejected "
         "operation, or the construction helpers; distinct by event trace hash",
    real=["mbo/container/internal/limited_ordered.h", "mbo/container/limited_set.h", "mbo/container/limited_map.h", "mbo/types/compare.h (CompareLess)",
          "mbo/config/require.h (throwing configuration)"], stub=["element type (harness/elem.h)", "absl (shim/)"],
    state_measure="distinct (operation, size, position, outcome)",
    assumptions=BASE_ASSUMPTIONS + [SHIM_ASSUMPTION, "moves of elements do not fail; elements do not fail inside operations declared noexcept; comparators do not fail",
                                    "input for kRequireSortedInput has no equivalent keys"],
    required_probes=["argument is an own element", "self-assignment", "across capacities", "rejected insert", "rejected range insert", "rejected construction",
                     "operation on a full container", "input is not sorted"],
    technique=TECH % FAULTY,
    level_note="Seeded histories with element failures over the real containers, against std::map and a registry of live elements.")

CHECKS["C23"] = Check(
    targets=[Target("c23", [SIM, "harness/wrappers.cc"] + SHIM + R("mbo/log/demangle.cc"), exceptions=True, absl=True)],
    batches={"quick": [("c23", 40000, 30)], "thorough": [("c23", 3000000, 600)]},
    rule="each run: a history of constructions, copies, moves, self-assignments, emplacements (also from the own value), resets, rebinding and destruction "
         "over three objects of one wrapper kind (Required of assignable and of non-assignable values, OptionalDataOrRef, OptionalDataOrConstRef, "
         "OptionalRef, RefWrap, OpaquePtr, OpaqueValue, OpaqueContainer), element operations and allocations failing at a chosen point; state, accessors, "
         "referenced objects and the set of live values are compared with a plain model after each step. Non-trivial: at least three steps and a failed "
         "operation; distinct by event trace hash",
    real=["mbo/types/required.h", "mbo/types/optional_data_or_ref.h", "mbo/types/optional_ref.h", "mbo/types/ref_wrap.h", "mbo/types/opaque.h"],
    stub=["element type (harness/elem.h)", "operator new", "absl (shim/)"],
    state_measure="distinct (wrapper, operation, outcome)",
    assumptions=BASE_ASSUMPTIONS + [SHIM_ASSUMPTION, "moves of values do not fail; values do not fail inside operations declared noexcept",
                                    "a moved-from OpaqueValue is only assigned or destroyed; OptionalDataOrRef does not emplace from its own value"],
    required_probes=["emplace from the own value", "self-assignment", "reference replaced by data"],
    technique=TECH % FAULTY,
    level_note="Seeded histories with element and allocation failures over the real wrappers, against a plain model and a registry of live values.")

CHECKS["C24"] = Check(
    targets=[Target("c24", [SIM, "harness/any_scan.cc"] + SHIM + R("mbo/log/demangle.cc"), exceptions=True, absl=True),
             sched_target("c24_threads", SHIM, ["harness/any_scan_threads.cc"], absl=True)],
    batches={"quick": [("c24", 20000, 15), ("c24_threads", 8000, 20)], "thorough": [("c24", 2000000, 300), ("c24_threads", 600000, 400)]},
    rule="histories: up to 35 operations over four scanners and six iterators (make from referenced and from owned vectors, lists, deques, sets, maps, arrays, "
         "limited containers; copy, move, assign, drop; start, advance by ++it and *it++, read, write through; loops; changes of the container by its owner), "
         "by reference, const and converting, every live iterator compared with a model after each step. Threads: 2-3 readers over one shared scanner or "
         "copies of it, every access of the real code a scheduling point, conflicting unsynchronised accesses reported, the last copy releasing an owned "
         "container. Non-trivial: two advances with another live iterator on the container, or two context switches; distinct by event trace hash",
    real=["mbo/container/any_scan.h"], stub=["element type (harness/elem.h)", "thread scheduler", "absl (shim/)"],
    state_measure="distinct (container, position, live iterators, ownership; threads: container, switches, threads, ownership)",
    assumptions=BASE_ASSUMPTIONS + [SHIM_ASSUMPTION, "iterators are single-pass: once one is advanced its copies are only assigned or destroyed",
                                    "no iterator is dereferenced or advanced at the end; two converting iterators are only compared with the end"],
    required_probes=["element read by *it++", "iterators at the same element", "scan dropped before its iterators", "last reader releases",
                     "container changed while scanners exist"],
    technique=TECH % "histories of interleaved scans and thread interleavings at memory-access granularity",
    level_note="Seeded histories and schedules over the real scanners, against a plain model, a registry of live elements and a race detector.")

CHECKS["C25"] = Check(
    targets=[Target("c25", [SIM, "harness/static_init.cc"] + SHIM + R("mbo/log/demangle.cc"), absl=True),
             sched_target("c25_threads", SHIM + RE2, [("harness/static_init.cc", ["-DTHREADS"])] + R("mbo/file/artefact.cc", "mbo/file/file.cc", "mbo/types/stringify.cc", "mbo/log/demangle.cc") + DIFF_SRC(), absl=True)],
    batches={"quick": [("c25", 6000, 10), ("c25_threads", 6000, 25)], "thorough": [("c25", 300000, 150), ("c25_threads", 600000, 500)]},
    rule="threads: in a fresh process 2-3 threads make their first and later uses of never-destroyed statics (default, with arguments, from a list, moved, "
         "mutable, dependent on each other), of the default options of differences, of differences with shared options and inputs, and of shared and "
         "compile-time limited containers; every access of the real code a scheduling point, conflicting unsynchronised accesses reported, one construction, "
         "one address and complete values required, results equal to those of a single thread. Histories: uses and automatic objects, then the process "
         "ends and an object that outlives all statics looks at (or first uses) them. Non-trivial: two context switches, or a process end; distinct by "
         "event trace hash",
    real=["mbo/types/no_destruct.h", "mbo/diff/**", "mbo/container/limited_{map,set,vector}.h"],
    stub=["thread scheduler, static initialisation guards", "absl and RE2 (shim/)"],
    state_measure="distinct (switches, threads, focus; histories: statics used)",
    assumptions=BASE_ASSUMPTIONS + [SHIM_ASSUMPTION, "accesses inside libstdc++.so, libc and the RE2 stand-in are not scheduling points"],
    required_probes=["first use of default options", "first use of a static", "shared immutable data", "process ended"],
    technique=TECH % "thread interleavings from first use on, and process ends",
    level_note="Seeded schedules over first and later uses in fresh processes, with race detection; process ends in forked copies.")

CHECKS["C26"] = Check(
    targets=[Target("c26", [SIM, ("harness/stringify_os.cc", ["-ftemplate-depth=4000"])] + SHIM + R("mbo/types/stringify.cc", "mbo/types/stringify_ostream.cc", "mbo/log/demangle.cc"), exceptions=True, absl=True),
             sched_target("c26_threads", SHIM, [("harness/stringify_os.cc", ["-DTHREADS", "-ftemplate-depth=4000"])] + R("mbo/types/stringify.cc", "mbo/types/stringify_ostream.cc", "mbo/log/demangle.cc"), absl=True)],
    batches={"quick": [("c26", 10000, 10), ("c26_threads", 6000, 25)], "thorough": [("c26", 1000000, 200), ("c26_threads", 600000, 500)]},
    rule="threads: 2-3 threads change the process-wide options (six modes, five option objects whose marks differ in several places) and stream objects, also "
         "nested in each other, from first use on; every access of the real code a scheduling point, conflicting unsynchronised accesses reported; the "
         "recorded history of changes and streamed texts must be linearizable as a register, each text rendered by one option set. Histories: changes and "
         "streaming with allocations failing at a chosen point; afterwards the last successful change is in effect. Non-trivial: two context switches, or a "
         "failed allocation; distinct by event trace hash",
    real=["mbo/types/stringify_ostream.h", "mbo/types/stringify_ostream.cc", "mbo/types/stringify.h", "mbo/types/optional_data_or_ref.h"],
    stub=["absl::Mutex and thread scheduler", "operator new (histories)", "absl (shim/)"],
    state_measure="distinct (switches, threads, changes; histories: option set, operation, outcome)",
    assumptions=BASE_ASSUMPTIONS + [SHIM_ASSUMPTION, "option objects stay alive and unchanged while they are in effect (they are held by reference)"],
    required_probes=["first use by several threads", "several changes at once", "nested streaming", "change of options failed"],
    technique=TECH % "thread interleavings and allocation failures",
    level_note="Seeded schedules over the real setters and stream operator, judged by a linearizability search over the recorded history.")

CHECKS["C27"] = Check(
    targets=[Target("c27", [SIM, "harness/status_flow.cc"] + SHIM + R("mbo/status/status_builder.cc"), exceptions=True, absl=True)],
    batches={"quick": [("c27", 60000, 25)], "thorough": [("c27", 4000000, 500)]},
    rule="routines: trees of up to 24 steps (status, status with value, assignment to a declaration, a variable or a structured binding, nested routines "
         "returning either, unbraced uses in if/else and loops, builders), any of which fails with any code, message and payloads, extended on the way up by "
         "streamed, appended and prepended text and payloads, and with allocations failing at a chosen point; evaluated steps, returned status, value and "
         "held resources are compared with an interpreter of the tree. Builders: histories of construction, streaming, mode changes, payloads, moves and "
         "conversions over three builders. Non-trivial: a step failed, or a builder history; distinct by event trace hash",
    real=["mbo/status/status.h", "mbo/status/status_builder.h", "mbo/status/status_builder.cc", "mbo/status/status_macros.h"],
    stub=["absl::Status, StatusOr, Cord (shim/)", "operator new"],
    state_measure="distinct (evaluations, returned code; builders: operation, state)",
    assumptions=BASE_ASSUMPTIONS + [SHIM_ASSUMPTION, "text streamed before a mode is chosen is only extended in the same mode",
                                    "under a failing allocation only the code, the steps and the resources are judged, not the message"],
    required_probes=["a step failed", "routine ran to its end", "builder moved", "routine under allocation failure"],
    technique=TECH % "failing steps and allocations in generated routines",
    level_note="Seeded failure sequences through real macro expansions, against an interpreter of the same routine.")

CHECKS["C09"] = Check(
    targets=[Target("c09", [SIM, "harness/log_timing.cc"] + SHIM + R("mbo/log/log_timing.cc", "mbo/log/demangle.cc"), exceptions=True, absl=True)],
    batches={"quick": [("c09", 40000, 25)], "thorough": [("c09", 3000000, 400)]},
    rule="each run: up to 29 operations over four timers (open at five kinds of place with any severity, minimum and start time; move; append text; close; "
         "change either flag) and nested lexical scopes left normally or by an exception, while the clock advances, stalls, jumps and steps backward, also "
         "between two readings; every scope end is judged against a model. Non-trivial: some scope logged and some stayed quiet; distinct by event trace "
         "hash",
    real=["mbo/log/log_timing.cc", "mbo/log/log_timing.h"], stub=["absl::Now, LOG and flags (shim/)"],
    state_measure="distinct (elapsed, minimum, severity, always-severity, outcome)",
    assumptions=BASE_ASSUMPTIONS + [SHIM_ASSUMPTION, "function names of lambdas are not checked; severities up to error"],
    required_probes=["timer moved", "nested scopes"],
    technique=TECH % "histories of timing scopes and clock faults",
    level_note="Seeded histories on a simulated clock over the real timer, against a model of the rule.")

_jreal = lambda: R("mbo/types/stringify.cc", "mbo/log/demangle.cc")
CHECKS["C35"] = Check(
    targets=[Target("c35", [SIM, ("harness/json_value.cc", ["-ftemplate-depth=4000"])] + SHIM + _jreal(), absl=True),
             sched_target("c35_threads", SHIM, [("harness/json_value.cc", ["-DTHREADS", "-ftemplate-depth=4000"])] + _jreal(), absl=True)],
    batches={"quick": [("c35", 20000, 25), ("c35_threads", 4000, 12)], "thorough": [("c35", 2000000, 500), ("c35_threads", 200000, 250)]},
    rule="histories: up to 44 operations on four values at any depth (assignment of every scalar type, push_back/emplace, property insertion and removal, erase by "
         "key, position, range and value iterator, resize, clear, copies and moves between and within values incl. a value into its own part and a part into its "
         "owner, swap, reuse of moved-from values, and requests the value cannot serve, tried in a forked copy of the process that has to abort) while the hash order of properties is redrawn at every step; after each, all values are read back through the "
         "const interface against a plain tree. Values are rebuilt in another insertion order and compared (equality, total order over six values), compared with plain scalars, serialised in "
         "the three modes and parsed back, and streamed to a device that takes only a part. Threads: 2-3 threads serialise, copy and compare one shared value, every "
         "access a scheduling point. Non-trivial: more than eight nodes at the end, a rebuilt object compared, or two context switches; distinct by event trace hash",
    real=["mbo/json/json.h", "mbo/types/stringify.h", "mbo/types/stringify.cc", "mbo/types/compare.h", "mbo/types/variant.h"],
    stub=["absl::flat_hash_map (shim: order drawn from the seed, elements relocated on growth)", "thread scheduler (threads)", "stream device"],
    state_measure="distinct (operation, kind, nodes capped at 7; threads: switches, threads)",
    assumptions=BASE_ASSUMPTIONS + [SHIM_ASSUMPTION, "serialised names and texts need no escapes"],
    required_probes=["object compared with its rebuilt self", "moved-from value used again", "moved from within", "copied within one value", "serialised to a full device",
                     "several readers", "compared with a plain value", "impossible request refused"],
    technique=TECH % "edit histories, hash orders, partial writes and thread interleavings",
    level_note="Seeded histories over the real class, with the property order of the hash map under the simulator's control.")
