#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for ids, titles and statements)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=(), state=(), hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = list(observe)
    a["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

D = "mbo/digest/"
p("C01", "Streamed digests equal the standard digest for every delivery schedule",
  "For every message and every way its bytes arrive (any split into updates including empty and huge ones, any point at which intermediate digests are taken, states copied, forked, assigned over or abandoned, many streams interleaved), finalising a stream yields exactly the standard algorithm's digest of the concatenated bytes seen by that stream, and the one-shot function yields the same. "
  "Taking an intermediate digest or copying a stream never changes what the stream or any other stream later produces. "
  "This holds for MD5, SHA-1, SHA-2 (224/256/384/512/512-224/512-256), SHA-3 (224/256/384/512), BLAKE2b-512/256 and BLAKE3.",
  ["schedules", "histories", "inputs"],
  "every message length (in particular around internal block, padding and tree boundaries), every chunking, every interleaving of update/peek/fork/assign/reset over any number of live streams",
  "Unit tests use fixed vectors and a handful of fixed chunk sizes on single streams; they do not vary chunk boundary x buffered-remainder x total length jointly, nor fork/peek in mid-stream at boundary states, nor interleave streams.",
  [D+"digest.h", D+"digest_md5.h", D+"digest_sha1.h", D+"digest_sha256.h", D+"digest_sha512.h", D+"digest_sha3.h", D+"digest_blake2b.h", D+"digest_blake3.h"],
  [("per-stream partial block buffer + total length, value-semantics state, finalise takes a copy", D+"digest.h Streamer and the StreamInit/StreamUpdate/StreamFinalize of every algorithm"),
   ("BLAKE3 chunk stack with lazy last-chunk finalisation", D+"digest_blake3.h Update/PushChunkChaining"),
   ("BLAKE2b keeps a full last block buffered until it knows it is not last", D+"digest_blake2b.h Update")],
  ["Streamer<Algo>::Finalize()", "Algo::Digest()", "Algo::StreamInit/StreamUpdate/StreamFinalize"])
p("C02", "Keyed digests: HMAC, keyed BLAKE2b/BLAKE3 and key derivation, any delivery",
  "For every key the API accepts (HMAC: any length; keyed BLAKE2b: up to 64 bytes, no key being the plain digest; keyed BLAKE3: 32 bytes; BLAKE3 key derivation: any context string) and every message, delivered in any chunks with intermediate tags taken and states copied or forked at any point, the resulting tag is the one the standard defines for that key and message; as documented, excess key bytes are ignored and a short BLAKE3 key is zero padded. "
  "One-shot and streamed forms agree, and streams under different keys never influence each other.",
  ["schedules", "histories", "inputs"],
  "every key length (in particular below, at and above the block size), message length, chunking, peek/fork schedule",
  "Tests use RFC 4231-style vectors with a few fixed keys; key length x chunk boundary x fork combinations are not covered.",
  [D+"digest_hmac.h", D+"digest_blake2b.h", D+"digest_blake3.h"],
  [("HMAC inner/outer pads, key hashed when longer than a block", D+"digest_hmac.h StreamInit/StreamFinalize"),
   ("key block absorbed first", D+"digest_blake2b.h KeyedInit"), ("keyed/derive flags and key words", D+"digest_blake3.h StreamInitKeyed/DeriveKey")],
  ["HmacStreamer::Finalize", "Hmac::Digest", "DigestKeyed", "DeriveKey"])
p("C03", "Extendable output: any length, any delivery, shorter output is a prefix",
  "For SHAKE128, SHAKE256 and BLAKE3's extended output (plain, keyed and derived), every requested output length yields the standard's output for the bytes absorbed, whatever the chunking, intermediate outputs and forks during absorption. "
  "A shorter output is always a prefix of a longer one for the same absorbed bytes.",
  ["schedules", "histories", "inputs"],
  "output lengths from 1 byte to several squeeze blocks, every absorption schedule",
  "Tests check a few output sizes on fixed inputs; multi-block squeezing at rate boundaries after arbitrarily chunked absorption is not explored.",
  [D+"digest_shake.h", D+"digest_sha3.h", D+"digest_blake3.h"],
  [("sponge squeeze loop", D+"digest_sha3.h FinalizeXof"), ("root output counter mode", D+"digest_blake3.h Finalize<OutputSize>")],
  ["shake128::Algorithm<N>", "shake256::Algorithm<N>", "blake3::DigestXof/DigestKeyed/DeriveKey<N>"])
p("C04", "Streamed hash equals the one-shot hash for every seed and delivery schedule",
  "For each hash algorithm offering streaming (the default hash, SipHash-2-4, XXH64), any seed, and any sequence of updates, empty updates, intermediate finalisations, copies and forks over interleaved streams, the streamed value equals the one-shot value for the bytes that stream has seen. "
  "SipHash and XXH64 additionally equal their published reference values, and hashing never reads outside the bytes it is given.",
  ["schedules", "histories", "inputs"],
  "every seed, message length, chunking and peek/fork schedule",
  "Streaming hashes are only tested in hash_test.cc with a few chunk sizes (not buildable offline here); the stable suite does not exercise the streaming states at all.",
  ["mbo/hash/hash.h", "mbo/hash/hash_mumbo.h", "mbo/hash/hash_siphash.h", "mbo/hash/hash_xxh64.h", "mbo/hash/hash_internal_util.h"],
  [("bulk window buffer + rolling last-16 window", "mbo/hash/hash_mumbo.h StreamUpdate"), ("8-byte word buffer", "mbo/hash/hash_siphash.h"), ("32-byte lane buffer", "mbo/hash/hash_xxh64.h")],
  ["Streamer<Algo>::Finalize()", "Algo::GetHash64()"])
p("C05", "Concurrent digest and hash use is race free and gives the sequential result",
  "Under every thread interleaving, threads working on distinct digest or hash objects, or only reading (finalising, copying, hashing with) a shared one, perform no conflicting unsynchronised accesses to memory. "
  "Every thread obtains exactly the value the same calls give when run alone.",
  ["schedules", "histories"],
  "every interleaving of memory accesses of several threads running digest, keyed digest, hash and hex formatting calls on distinct or shared-const objects",
  "No test uses more than one thread.",
  [D+"digest.h", D+"digest_hmac.h", "mbo/hash/hash.h", "mbo/hash/hash_mumbo.h"],
  [("all working state is in caller-owned objects or on the stack; finalise is const and takes the state by value", D+"digest.h, mbo/hash/hash.h")],
  ["Streamer, HmacStreamer, Digest, GetHash64/128, ToHexString"])
L = "mbo/log/"
p("C06", "Type-name demangling never fails, leaks or races",
  "Demangling any C string always returns either the demangled form or, when demangling is impossible for any reason including memory exhaustion inside the demangler, the input itself. "
  "Every buffer obtained is released exactly once, and concurrent calls neither race nor influence each other's results.",
  ["fault_sequences", "schedules", "inputs"],
  "every allocation-failure point inside the demangler, every interleaving of concurrent calls, valid and invalid mangled names",
  "Tests demangle a few type names on one thread and never fail an allocation.",
  [L+"demangle.h", L+"demangle.cc"],
  [("falls back to the mangled name when status != 0, frees the malloc'ed result", L+"demangle.cc Demangle")],
  ["mbo::log::Demangle", "mbo::log::DemangleV"])
p("C07", "A scoped stream emits its one record exactly once, whole, at scope end",
  "However scopes nest, interleave across streams and sinks, and end (in any order), each scoped stream writes exactly one newline-terminated record to its sink when it ends and nothing before, consisting of source location, function, the optional fixed message and the streamed text in order. "
  "A sink that fails or truncates writes at any byte never makes a record be repeated, reordered, mixed with another record or lost from a different healthy sink, and a void stream writes nothing.",
  ["fault_sequences", "histories", "schedules"],
  "every nesting/interleaving of scopes, message contents (including empty), every point at which a sink starts failing, blocking short or recovering",
  "Tests use one healthy stringstream/stderr capture and a handful of fixed messages.",
  [L+"scoped_stream.h"],
  [("text is buffered in the object and emitted by the destructor", L+"scoped_stream.h ~ScopedStream/OutPrefix")],
  ["bytes arriving at the sink's stream buffer"])
p("C08", "A failed log check reports fully and exits 1; a passing one does nothing",
  "When a checked condition is false the process ends with exit status 1 and, before it ends, exactly one complete record with location, the check's text and the streamed message has been handed to standard error, for every message and even if standard error accepts only some bytes at a time or other output is buffered. "
  "When the condition is true nothing is written and execution continues; the condition is evaluated exactly once.",
  ["fault_sequences", "crash_points", "histories"],
  "every sequence of passing and failing checks, message sizes and stderr write-fault patterns (EINTR, short writes, errors)",
  "Tests use a few death tests with short messages on a healthy stderr.",
  [L+"scoped_log_check.h", L+"scoped_stream.h"],
  [("quick_exit(1) after flushing the record", L+"scoped_stream.h ~ScopedStream"), ("variant of live/void streams", L+"scoped_log_check.h")],
  ["process exit status and bytes written to fd 2"])
p("C09", "Scope timing logs exactly once iff slow enough or severe enough, any clock",
  "Each timing scope produces at most one log record, at scope end, and produces it if and only if the elapsed wall-clock time is at least the minimum duration (per call, else the flag) or its severity reaches the always-log threshold; moved-from timers log nothing. "
  "This holds for every clock behaviour, including stalls, jumps and backward steps, and for nested or interleaved scopes and flag changes while scopes are open; the record shows the elapsed time, location and message.",
  ["schedules", "fault_sequences", "histories"],
  "every clock history (advance, stall, forward/backward jump), nesting of scopes, moves, severities, durations and flag values",
  "Tests rely on the real clock with sleeps, so exact thresholds, jumps and backward steps are never exercised.",
  [L+"log_timing.h", L+"log_timing.cc"],
  [("Once guard transferred on move; duration computed at destruction", L+"log_timing.h ~LogTimingImpl, log_timing.cc Log")],
  ["log sink", "absl::Now seam"])
F = "mbo/file/"
p("C10", "Reading a file gives its exact bytes or an error, never partial or garbage",
  "Reading a whole file returns exactly the file's bytes or a non-OK status, for every content and size and whatever the file system does during the read: short reads, interrupted calls, I/O errors at any call, permission errors, missing files, directories, files that shrink while being read. "
  "It never crashes, hangs, throws or leaks a descriptor.",
  ["fault_sequences", "inputs"],
  "every fault kind at every system call made by the read, all content sizes around stream buffer sizes",
  "Tests read small healthy files; no test injects an I/O fault or a concurrent size change.",
  [F+"file.cc", F+"file.h"],
  [("seek to end for size, resize, read, compare byte count, stream state checked", F+"file.cc GetContents"), ("existence/type probe", F+"file.cc Readable")],
  ["GetContents", "Readable", "GetMTime"])
p("C11", "An acknowledged file write is fully written",
  "If writing a file reports success, the file holds exactly the given bytes (binary exact, previous content replaced) as accepted by the operating system; any failure of opening, writing or closing, including a full disk, short write or error only reported at close, is reported as a non-OK status. "
  "Writes never throw, hang or leak a descriptor.",
  ["fault_sequences", "crash_points", "histories"],
  "every fault kind at every system call of the write, every sequence of writes and reads over a set of files",
  "Tests write small files to a healthy disk.",
  [F+"file.cc", F+"file.h"],
  [("write, close, then check stream state", F+"file.cc SetContents")],
  ["SetContents followed by the simulated disk's content"])
p("C12", "Bounded line reads return exactly the leading lines or an error",
  "Reading at most N lines returns exactly the prefix of the file that makes up its first N lines (all of it if there are fewer), byte for byte including whether the last line is newline-terminated as documented, or a non-OK status if any read failed. "
  "A failed or short read is never presented as a shorter file.",
  ["fault_sequences", "inputs"],
  "every N, content, fault kind and fault position",
  "Tests use small healthy files with few line counts.",
  [F+"file.cc", F+"artefact.cc"],
  [("line loop with stream state check", F+"file.cc GetMaxLines")],
  ["GetMaxLines", "Artefact::ReadMaxLines"])
p("C13", "A file artefact pairs a name with exact content and time, or fails",
  "Reading an artefact yields the file's exact (or first N lines') content together with its name and the file's modification time (or the epoch when times are skipped), or a non-OK status; any failing step (content, time stamp) fails the whole. "
  "Standard input is read to its end; a read error is not taken for end of input.",
  ["fault_sequences", "inputs"],
  "every failing system call during content and time-stamp retrieval, file times before/after the epoch",
  "Tests read healthy files only.",
  [F+"artefact.h", F+"artefact.cc", F+"file.cc"],
  [("each step's status is propagated", F+"artefact.cc Read/ReadMaxLines")],
  ["Artefact::Read"])
p("C14", "Globbing visits exactly the matching entries or reports an error",
  "Walking a pattern over a directory tree calls the visitor exactly once for every matching entry within the requested depth and none other, and honours the visitor's decisions to stop or not descend; on a tree that cannot be read completely (errors opening or reading a directory, permission errors, entries vanishing or looping while being walked) it ends with a status or skips as configured, but never crashes, throws, hangs or reports success for a listing an error cut short. "
  "Errors returned by the visitor are returned to the caller unchanged and end the walk.",
  ["fault_sequences", "histories", "inputs"],
  "every tree shape, visitor decision sequence, fault kind and position in the walk, entries changing while walked",
  "Tests use one small healthy tree.",
  [F+"glob.h", F+"glob.cc"],
  [("recursive_directory_iterator walk with per-entry visitor", F+"glob.cc GlobLoopImpl"), ("non-throwing entry accessors", F+"glob.h GlobEntry")],
  ["Glob/GlobRe2 callback sequence and status"])
p("C15", "INI files round-trip; a failed load or save is never presented as success",
  "Any set of groups, keys and values representable in the format, written and read back, yields the same set. "
  "Under any I/O fault reading fails with a status instead of delivering a part of the file as if it were all, and writing reports success only if the file was completely written.",
  ["fault_sequences", "histories", "inputs"],
  "every model content, operation sequence, fault kind and position",
  "Tests cover a few fixed files on a healthy disk.",
  [F+"ini/ini_file.h", F+"ini/ini_file.cc"],
  [("Write renders and stores via SetContents; Read parses GetContents", F+"ini/ini_file.cc")],
  ["IniFile::Read/Write"])
p("C16", "The digest tool never prints a digest for bytes it did not read",
  "In compute mode the tool prints '<hash>  <file>' (or reversed) only for inputs it has read completely and then the hash is the digest of exactly the file's bytes; any open or read failure, including one in the middle of a file or of standard input, is reported on standard error and makes the exit status non-zero while other inputs are still processed. "
  "Exit status 0 therefore means every argument was digested and printed, and the output was accepted by the operating system.",
  ["fault_sequences", "inputs", "histories"],
  "every fault kind at every system call, any list of files, all algorithms, short reads and sizes around the read chunk size",
  "The CLI shell test uses healthy files (and does not run offline).",
  [D+"digest_main.cc"],
  [("chunked read loop into a streamer", D+"digest_main.cc HexDigestStream"), ("per-file error handling", D+"digest_main.cc Run")],
  ["stdout, stderr, exit status of the digest binary's main"])
p("C17", "Digest verification reports OK only for verified files",
  "In check mode a listed file is reported OK and counted as verified only if it was read completely and its digest equals the listed one; unreadable or partially read files are failures (or skipped where missing files are to be ignored and the file is missing), and a checksum list that cannot be read completely makes the exit status non-zero. "
  "Exit status 0 means every well-formed line of every list was verified (or skipped as documented).",
  ["fault_sequences", "inputs", "histories"],
  "every fault kind at every system call on list and data files, all flag combinations, malformed lines interleaved",
  "The CLI shell test uses healthy files (and does not run offline).",
  [D+"digest_main.cc", D+"checksum.cc"],
  [("line loop, parse, digest, compare", D+"digest_main.cc CheckStream/RunCheck")],
  ["stdout, stderr, exit status of the digest binary's main"])
p("C18", "The diff tool's exit status is truthful under I/O faults",
  "The diff tool exits 0 only if both inputs were read completely and compare equal under the options, 1 only if they were read completely, differ, and the difference text was delivered, and 2 for any trouble such as an input that could not be read completely. "
  "A read fault never turns into a difference report or into equality.",
  ["fault_sequences", "inputs"],
  "every fault kind at every system call on either input, all algorithms, formats and max-lines settings",
  "The CLI tests use healthy files (and do not run offline).",
  ["mbo/diff/diff_main.cc", F+"artefact.cc", F+"file.cc"],
  [("Read both, bail out with trouble status", "mbo/diff/diff_main.cc Diff/Read")],
  ["stdout, stderr, exit status of the diff binary's main"])
p("C19", "The template tool reports unreadable or unwritable files instead of crashing",
  "Expanding a template file either writes the complete expansion to the requested output and exits 0, or prints a diagnostic and exits non-zero; an unreadable template or value file, or an output that cannot be written completely, never crashes the tool and never yields exit status 0. "
  "An output file is never reported complete when it holds only part of the expansion.",
  ["fault_sequences", "inputs"],
  "every fault kind at every system call on template, value file and output",
  "The CLI tests use healthy files (and do not run offline).",
  ["mbo/mope/mope_main.cc", "mbo/mope/ini.cc", F+"file.cc"],
  [("status checks around read/expand/write", "mbo/mope/mope_main.cc Process")],
  ["output file, stdout, stderr, exit status of the mope binary's main"])
p("C20", "A template is expanded the same however often and from however many threads",
  "Expanding a const template is repeatable and has no side effects: any sequence of expansions of the same or different texts, including failing ones, and any interleaving of concurrent expansions of a shared template, gives for each text the result it would give alone on a fresh template. "
  "Concurrent const expansions perform no conflicting unsynchronised memory accesses.",
  ["schedules", "histories"],
  "every interleaving and every history of prior expansions (in particular sections with different join strings, nested sections and failing expansions)",
  "Tests expand once per template on one thread.",
  ["mbo/mope/mope.h", "mbo/mope/mope.cc"],
  [("per-expansion context object", "mbo/mope/mope.cc Expand/ExpandTags")],
  ["Template::Expand"],
  [("join", "separator remembered while expanding a section", "mbo/mope/mope.h Section")])
C = "mbo/container/"
p("C21", "Fixed-capacity vector behaves as a vector and owns its elements exactly once",
  "For every sequence of operations the fixed-capacity vector shows the same contents, sizes and results as an unbounded vector up to its capacity, and an operation that would exceed capacity is rejected by the configured requirement mechanism without corrupting the container. "
  "Every element is constructed before use and destroyed exactly once, also when element copies or constructions throw at any point in an operation that is not declared noexcept: afterwards the container is still valid and nothing is leaked or destroyed twice (element moves are taken not to throw).",
  ["fault_sequences", "histories"],
  "every operation sequence, every capacity, every element operation as a throwing point",
  "Tests use trivially copyable or string elements in short fixed sequences and no throwing elements (and do not run offline).",
  [C+"limited_vector.h"],
  [("uninitialised element union array with explicit construct/destroy", C+"limited_vector.h")],
  ["public LimitedVector API with instrumented element type"])
p("C22", "Fixed-capacity set and map behave as ordered containers, elements owned once",
  "For every sequence of operations the fixed-capacity set and map agree with an unbounded ordered set and map up to their capacity in contents, order, lookup results and return values; inserting beyond capacity is rejected without corrupting the container. "
  "Copies, moves and swaps carry the comparator. Every element is constructed before use and destroyed exactly once, also when element copies or constructions throw at any point in an operation that is not declared noexcept (element moves are taken not to throw); an insertion that fails loses no element.",
  ["fault_sequences", "histories"],
  "every operation sequence, comparator state, capacity (below and above the unroll limit), every element operation as a throwing point",
  "Tests use fixed sequences with trivially copyable or string elements and no throwing elements (and do not run offline).",
  [C+"limited_set.h", C+"limited_map.h", C+"internal/limited_ordered.h"],
  [("sorted uninitialised storage with shifting insert/erase", C+"internal/limited_ordered.h")],
  ["public LimitedSet/LimitedMap API with instrumented element type"])
p("C23", "Value wrappers own exactly one live value across any history and failure",
  "For every sequence of constructions, copies, moves, self-assignments, emplacements, resets and reference rebinding, also with element operations throwing at any point, the value wrappers (optional data-or-reference, required value, opaque owned value, reference wrappers) report the state a plain model predicts, and every contained value is constructed and destroyed exactly once. "
  "Wrappers never destroy or modify a referenced object they do not own, and copies of data are independent; only assigning a value through a wrapper that holds a mutable reference writes to the referenced object.",
  ["fault_sequences", "histories"],
  "every operation history and every throwing point in the contained type",
  "Tests check single operations with healthy types.",
  ["mbo/types/optional_data_or_ref.h", "mbo/types/optional_ref.h", "mbo/types/required.h", "mbo/types/opaque.h", "mbo/types/ref_wrap.h"],
  [("manual union with flag; destroy+placement new; unique_ptr with hooks", "mbo/types/optional_data_or_ref.h, required.h, opaque.h")],
  ["public API with instrumented contained type"])
p("C24", "Type-erased scans see the whole container however scans interleave",
  "Any number of scans over one type-erased scanner, started at any time, advanced in any interleaving, by any number of threads that only read, each visit exactly the container's elements in order, also when read with *it++; emptiness and size agree with the container; by-reference iterators yield the container's own elements and are equal exactly when both are at the same element or both at the end. "
  "A scanner made from a temporary keeps the elements alive until the last scanner copy and iterator is gone, then releases them exactly once.",
  ["schedules", "histories"],
  "every interleaving of scan start/advance/copy/destroy over shared and owned containers",
  "Tests run one scan at a time, on one thread.",
  [C+"any_scan.h"],
  [("each begin() makes its own shared iterator; shared_ptr keeps owned containers", C+"any_scan.h AnyScanImpl")],
  ["MakeAnyScan/MakeConstScan/MakeConvertingScan"])
p("C25", "Lazily initialised and immutable library state is safe under any interleaving",
  "Under every interleaving of threads making their first and later use of never-destroyed statics, default options, static lookup tables and const containers, initialisation happens exactly once before any use, all threads see the same object and value, and no conflicting unsynchronised memory access occurs. "
  "Never-destroyed objects are never destroyed.",
  ["schedules", "histories"],
  "every interleaving of first and later uses by several threads, in a fresh process",
  "No test uses threads.",
  ["mbo/types/no_destruct.h", "mbo/diff/diff_options.cc", "mbo/file/artefact.h", C+"limited_map.h"],
  [("function-local statics of NoDestruct", "mbo/types/no_destruct.h, mbo/diff/diff_options.cc")],
  ["NoDestruct, Options::Default, const lookups"])
p("C26", "Global stream formatting options change atomically",
  "Concurrent reads and changes of the process-wide stringification options behave as if executed one at a time: every read, and every object streamed, uses one of the option sets that was current at some point during the call and never a mixture, without data races. "
  "After all changes have completed, the last one is in effect.",
  ["schedules", "histories"],
  "every interleaving of option setters, getters and streaming calls",
  "Tests set and stream on one thread.",
  ["mbo/types/stringify_ostream.h", "mbo/types/stringify_ostream.cc"],
  [("mutex-protected global options", "mbo/types/stringify_ostream.cc")],
  ["SetStringifyOstreamOptions / operator<<"],
  [("g_options", "process wide options", "mbo/types/stringify_ostream.cc")])
p("C27", "Status helpers return the first failure unchanged and skip the rest",
  "In a routine built from the status macros and status builder, whichever step fails, its code, message and payloads are returned (with streamed text appended or prepended as requested), no later step runs, every step expression is evaluated exactly once and every already acquired resource is released; if no step fails the routine runs to its end. "
  "Moved and converted builders carry their status once and an OK status never becomes an error.",
  ["fault_sequences", "histories"],
  "every sequence of steps and every subset of failing steps",
  "Tests check one macro use at a time.",
  ["mbo/status/status.h", "mbo/status/status_builder.h", "mbo/status/status_builder.cc", "mbo/status/status_macros.h"],
  [("early return via StatusBuilder", "mbo/status/status_macros.h")],
  ["returned status and step trace"])
p("C28", "Cache retention never drops the newest matching cache",
  "Whatever order caches are listed in, and however saves and cleanup runs of concurrent workflows interleave, a cleanup run selects for deletion every matching cache it was shown except the newest one and no cache whose key does not match. "
  "Once saving stops, one cleanup run leaves exactly the newest matching cache, and repeating it deletes nothing more.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of save/list/delete steps of several workflows, failing deletions, duplicate cleanup runs, any listing order",
  "Tests pass one fixed list.",
  ["tools/cache_cleanup.py", ".github/workflows/cache_cleanup.yml"],
  [("sort by creation time, keep the last", "tools/cache_cleanup.py expired_cache_ids")],
  ["ids printed by the tool"])
p("C29", "Published coverage reports converge to the newest run whatever the arrival order",
  "Reports for one target published by concurrent, retried and re-run workflows in any arrival order, with any of them duplicated, delayed or lost after publication, leave the report of the newest run (creation time, then run id, then attempt) published; re-publishing the same report is accepted and an older one never replaces a newer one. "
  "The overview shows exactly the retained newest report per target, once each: main first, then tags by falling version, then pull requests by falling number.",
  ["schedules", "histories"],
  "every arrival order, duplication and crash between publish steps",
  "Tests compare a few fixed pairs.",
  ["tools/coverage_index.py", ".github/workflows/coverage_pages.yml"],
  [("total order on (created_at, run_id, run_attempt), >= accepted", "tools/coverage_index.py is_newer/latest_metadata")],
  ["exit status of `coverage_index.py newer`, rendered site"])
p("C30", "The glob tool lists and counts exactly what is there, or fails",
  "glob exits 0 only if the walk completed and everything printed was delivered; then the entries listed are exactly the matching entries below the root, each once with the path, type, size and depth it has, sorted and aligned unless asked not to be, and the summaries and counts agree with the listing. "
  "Otherwise (an unreadable directory, an entry that disappears, a failing stat or output) it says so and exits non-zero; it never crashes or silently drops output.",
  ["fault_sequences", "histories", "schedules"],
  "every tree, pattern and option, every position of a file system fault, every change of the tree while it is walked, every output fault",
  "The tool has no unit tests and a test cannot fail the n-th readdir or fill the disk under stdout.",
  ["mbo/file/glob_main.cc", "mbo/file/glob.cc"],
  [("walk, collect, sort, print, summary", "mbo/file/glob_main.cc Glob/main"), ("recursive iteration and errors", "mbo/file/glob.cc")],
  ["exit status, standard output and error of `glob`"])
p("C31", "The hash tool prints the hash of every input line or fails",
  "hash_tool exits 0 only if it read its whole input and delivered its whole output; then it printed, for every input line in order, the hash of exactly that line under the chosen algorithm and seed, equal to what the library computes. "
  "A read or write failure gives a non-zero exit, never a complete-looking but shortened list.",
  ["fault_sequences", "histories"],
  "every input and split of it into reads, every position of a read or write failure",
  "The tool has no unit tests and a test cannot fail the n-th read.",
  ["mbo/hash/hash_tool.cc", "mbo/hash/hash.h"],
  [("line loop over the input", "mbo/hash/hash_tool.cc main")],
  ["exit status and standard output of `hash_tool`"])
p("C32", "Markdown alignment rewrites a document whole or leaves it alone",
  "However reading or writing fails and wherever the tool is killed, every document passed to align_markdown_tables.py is afterwards either byte for byte what it was or completely aligned, with its mode and links kept and no temporary file left by a run that was not killed. "
  "Exit 0 means nothing needed alignment, 1 that everything that needed it was (or, with --check, would be) aligned, anything else that it failed; alignment changes only spacing and dashes of table rows, keeps line endings, and is stable when repeated.",
  ["crash_points", "fault_sequences", "inputs"],
  "every document, every position of a failing file operation, every instant of being killed",
  "Tests call align_text on fixed strings; no test can fail or kill the rewrite half way.",
  ["tools/align_markdown_tables.py"],
  [("in-place rewrite", "tools/align_markdown_tables.py main"), ("row rendering", "tools/align_markdown_tables.py _format_table")],
  ["bytes, mode and directory entries after the run; exit status"])
p("C33", "Repository gates and report tools fail closed",
  "A lint gate (target naming, libraries tested, headers claimed, status asserts, test matchers, clang-tidy, header guards, versions, the done gate) exits 0 only if it examined everything it was asked to and found nothing; a coverage or cache tool exits 0 only with exactly the output it produces undisturbed. "
  "The coverage gate passes only when every minimum of its policy, and of the changed lines, is met by the report's own records; coverage pages, source trees and metadata show those numbers. "
  "When a file or directory cannot be read, output cannot be written, or a command it calls dies, fails or is missing, it exits non-zero; the comparison of two reports never answers from an error.",
  ["fault_sequences", "inputs"],
  "every tree, every position of a failing file operation, every failing helper command",
  "Tests call the rule functions on strings in memory; none fails a read, a directory or a helper.",
  ["tools/build_rules.py", "tools/check_cc_library_tested.py", "tools/check_cc_target_naming.py", "tools/check_headers_claimed.py", "tools/check_status_assert.py",
   "tools/check_test_matchers.sh", "tools/clang_tidy.sh", "tools/coverage.py", "tools/coverage_sources.py", "tools/coverage_index.py", "tools/cache_cleanup.py",
   ".pre-commit/check_header_guards.py", ".pre-commit/check_version.sh", ".pre-commit/check_done_gate.py"],
  [("BUILD file discovery", "tools/build_rules.py find_build_files"), ("scanning with grep", "tools/check_test_matchers.sh"), ("newer", "tools/coverage_index.py main")],
  ["exit status and output of each tool"])

p("C34", "A release publishes exactly the verified state, once",
  "tools/trigger_release.sh publishes a version's tag only from a clean checkout of exactly origin/main whose MODULE.bazel and CHANGELOG.md carry that version; the tag is annotated, signed, names that commit and holds that version's notes. "
  "It publishes nothing but that tag and the bump branch to the next patch version (whose only edits are the two version fields), moves and removes nothing published, and when a check, a command or a concurrent push gets in the way it exits non-zero; a second run never releases again. "
  "release_prep.sh exits 0 only with an archive of exactly the tagged tree with its documented edits, and leaves the checkout's index alone.",
  ["fault_sequences", "schedules", "histories"],
  "every failing or killed command, every concurrent push, every flaw of the checkout",
  "No test runs the release scripts at all.",
  ["tools/trigger_release.sh", ".github/workflows/release_prep.sh"],
  [("pre-flight checks", "tools/trigger_release.sh"), ("tag and push", "tools/trigger_release.sh git tag / git push"), ("git archive with edits", ".github/workflows/release_prep.sh")],
  ["refs of origin", "exit status", "archive content"])

p("C35", "JSON values keep value semantics over any history and any property order",
  "A Json holds exactly what was put into it, whatever sequence of assignments (of any scalar type, from named variables and temporaries alike), insertions, erasures, resizes, copies, moves and swaps led there, also when a value is copied or moved into a part of itself or a part takes its owner's place; copies are independent, and a moved-from value can be looked at, copied, compared and used again. "
  "Equality and ordering are those of the contents, a total order that depends neither on the order in which properties were inserted nor on the hash order of the map. Iteration yields every element and property exactly once, erasing leads to what followed. A request the value cannot serve (an index or name it does not have, the interface of another kind) ends the program instead of being carried out on something else. "
  "Serialising a value (of names and texts that need no escapes) yields text that holds exactly its contents, pretty mode in property order; a device that takes only a part is seen in the stream's state. Nothing else is written anywhere, and concurrent readers of one value see the same.",
  ["histories", "schedules", "fault_sequences"],
  "every edit history over several values at any depth, every property order of the hash map, every partial write, every interleaving of readers",
  "Tests (not buildable offline) use literals, objects of one property for comparisons and hash orders as they come; none assigns from a named value, uses a moved-from one or compares equal objects with different histories.",
  ["mbo/json/json.h", "mbo/types/stringify.h", "mbo/types/compare.h"],
  [("variant of scalars, vector and hash map of owned values", "mbo/json/json.h Json::data_"), ("comparison", "mbo/json/json.h kJsonComparator"), ("classification of assigned types", "mbo/json/json.h ToKind/CopyFrom")],
  ["Json's const interface", "Serialize/Stream"])

p("C36", "The maintenance workflows touch only what they own",
  "Cleaning up after a closed pull request (cache_cleanup.yml) deletes every cache of that branch and of no other; for main, and in the sweep of old pull requests, the newest cache of a key prefix of main is never deleted, even while caches are being saved. "
  "A listing that fails deletes nothing, one failing deletion does not keep the others, the cache service never fails the workflow, and what is left behind is said. "
  "Publishing coverage (coverage_pages.yml) claims a report for a release, for main or for the pull request that owns the commit, and for nothing else; a report that names another or a malformed target is refused and changes nothing. "
  "Exit 0 means the retained branch holds exactly its former reports (legacy ones moved and given metadata) with this one in its target's place unless an older one, an overview linking every retained report, and that the deployed tree equals it; otherwise the step fails and the branch is either as it was or complete. History is never rewritten and another push never lost.",
  ["fault_sequences", "schedules", "histories"],
  "every failing or killed command, every cancellation, every concurrent save or push, every retained site and artifact",
  "No test runs the workflows' shell at all; they act on the live repository.",
  [".github/workflows/cache_cleanup.yml", ".github/workflows/coverage_pages.yml", "tools/cache_cleanup.py", "tools/coverage_index.py"],
  [("current pull request", ".github/workflows/cache_cleanup.yml run step 1"), ("old pull requests", ".github/workflows/cache_cleanup.yml run step 2"),
   ("destination", ".github/workflows/coverage_pages.yml id target"), ("stage and index", ".github/workflows/coverage_pages.yml Stage and index the report")],
  ["caches left", "commits and tree of the retained branch", "deployed tree", "exit status and warnings"])

# ---- pure functions: listed for breadth, not simulation targets
def pure(id, title, statement, text, why, files, mech):
    p(id, title, statement, ["inputs"], text, why, files, [(mech, files[0])])
pure("P01", "One-shot hashes have their documented canonical values",
  "FNV-1a, MurmurHash3, rapidhash, XXH3, XXH64 and SipHash give their reference values and the library's own hashes their documented frozen values, for every input and seed, identically at compile time and run time.",
  "all inputs and seeds", "Tests sample vectors.", ["mbo/hash/hash_fnv1a.h", "mbo/hash/hash_murmur3.h", "mbo/hash/hash_rapidhash.h", "mbo/hash/hash_xxh3.h", "mbo/hash/hash_tembo.h", "mbo/hash/hash_fambo.h", "mbo/hash/hash_dumbo.h", "mbo/hash/hash_mangle.h"], "constexpr hash functions")
pure("P02", "Differences are correct and, where promised, minimal",
  "Applying a produced difference to the left text yields the right text for every pair of texts, algorithm, context size and format; with minimal set the edit script is shortest; equal inputs produce no output.",
  "all text pairs and options", "Tests sample pairs.", ["mbo/diff/impl/diff_myers.cc", "mbo/diff/impl/diff_naive.cc", "mbo/diff/internal/chunk.cc", "mbo/diff/internal/output.cc"], "Myers middle snake, chunking, rendering")
pure("P03", "String parsing, quoting, comment stripping and splitting follow their grammar",
  "Parsed strings and lists follow the documented quoting, escaping and stop rules for every input, consume exactly the parsed prefix and reject malformed escapes with an error.",
  "all inputs and options", "Tests sample inputs.", ["mbo/strings/parse.cc", "mbo/strings/strip.cc", "mbo/strings/split.h", "mbo/strings/indent.cc", "mbo/strings/contains.h"], "character state machine")
pure("P04", "Numbers are grouped and measured correctly for every integer",
  "Grouped number text equals the decimal text with separators every three digits, and the predicted length equals its actual length, for every integer of every type.",
  "all integers", "Tests sample values.", ["mbo/strings/numbers.h"], "table lookup and grouping")
pure("P05", "Structures are stringified with correct escaping, names and nesting",
  "Stringified aggregates contain every field once, in order, quoted and escaped so that JSON and literal modes are valid for every content.",
  "all supported types and values", "Tests sample types.", ["mbo/types/stringify.h", "mbo/types/extend.h", "mbo/types/extender.h"], "recursive visitor")
pure("P06", "JSON values serialise to valid JSON that preserves the value",
  "Every JSON value tree serialises to valid JSON denoting the same value, and value accessors behave as a JSON data model.",
  "all value trees", "Tests sample trees.", ["mbo/json/json.h"], "variant based value tree")
pure("P07", "Glob patterns translate to the language they denote",
  "A path matches a translated pattern if and only if it matches the glob, for every pattern and path, and invalid patterns are rejected.",
  "all patterns and paths", "Tests sample patterns.", ["mbo/file/glob.cc"], "pattern to regular expression translation")
pure("P08", "Compile-time type machinery classifies every type correctly",
  "Traits, case selection, template search, tuple extras, typed views, compile-time strings and field counting give the defined answer for every type.",
  "all types (programs)", "Tests sample types.", ["mbo/types/traits.h", "mbo/types/cases.h", "mbo/types/template_search.h", "mbo/types/tuple_extras.h", "mbo/types/tstring.h", "mbo/types/internal/decompose_count.h", "mbo/types/variant.h", "mbo/types/compare.h"], "constexpr templates")
pure("P09", "Checksum lines are parsed exactly as sha256sum would",
  "A checksum line is accepted if and only if it has exactly the expected number of hex digits, a valid separator and a file name, and both are extracted unchanged.",
  "all lines", "Tests and a fuzz test sample lines.", [D+"checksum.cc"], "fixed-position parser")
pure("P10", "Container conversion preserves the elements",
  "Converting any container to another type transfers every element once, in order, applying the conversion function if given.",
  "all containers", "Tests sample containers.", [C+"convert_container.h", "mbo/types/container_proxy.h"], "element-wise loop")
pure("P11", "Repository lint, table alignment and coverage policy tools decide correctly",
  "The tools flag exactly the violations of their rules for every input text; table alignment is idempotent and changes only spacing; coverage arithmetic is exact.",
  "all input texts", "Tests sample texts.", ["tools/align_markdown_tables.py", "tools/check_cc_library_tested.py", "tools/check_cc_target_naming.py", "tools/coverage.py", "tools/coverage_sources.py", "tools/build_rules.py"], "text processing")
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
