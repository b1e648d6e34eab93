"""Builds simulation harnesses from /repo's current working tree (g++ only, offline, parallel, content-cached)."""
import concurrent.futures, hashlib, json, os, re, subprocess, sys, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
CXX = "g++-13"
JOBS = os.cpu_count() or 8

STD = ["-std=c++20", "-w", "-g1", "-fno-omit-frame-pointer", "-pthread"]
ASAN = ["-fsanitize=address,undefined", "-fno-sanitize=vptr,alignment,nonnull-attribute,returns-nonnull-attribute,"
        "pointer-overflow,signed-integer-overflow,shift,float-cast-overflow,float-divide-by-zero",
        "-fno-sanitize-recover=all"]


# Calls from instrumented objects (scheduler flavour) that go to the simulated versions in sim/simsched.cc.
REDIRECT = ("memcpy memmove memset memcmp memchr strlen pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock pthread_once").split()


class BuildError(Exception):
    pass


def _sha(path):
    h = hashlib.sha256()
    with open(path, "rb") as f:
        h.update(f.read())
    return h.hexdigest()


_sha_cache = {}
_lock = threading.Lock()


def sha(path):
    with _lock:
        if path in _sha_cache:
            return _sha_cache[path]
    v = _sha(path) if os.path.exists(path) else "missing"
    with _lock:
        _sha_cache[path] = v
    return v


def gen_headers(require_throws=False, unroll=16):
    d = os.path.join(BUILD, "gen", "t%d_u%d" % (int(require_throws), unroll))
    src = open(os.path.join(REPO, "mbo/config/internal/config.h.in")).read()
    text = re.sub(r"(kUnrollMaxCapacityDefault\s*=\s*)\d+;", r"\g<1>%d;" % unroll, src)
    text = re.sub(r"(kRequireThrows\s*=\s*)(?:true|false);", r"\g<1>%s;" % ("true" if require_throws else "false"), text)
    _write(os.path.join(d, "mbo/config/config_gen.h"), text)
    bzl = open(os.path.join(REPO, "mbo/hash/internal/hash_mangle_seed.bzl")).read()
    m = re.search(r'_HEADER\s*=\s*"""(.*?)"""', bzl, re.S)
    head = m.group(1) if m else ("#pragma once\n#include <cstdint>\nnamespace mbo::hash { inline constexpr "
                                 "std::uint64_t kMangleConstant = @MANGLE_CONSTANT@; }\n")
    head = head.replace("\\\n", "")
    _write(os.path.join(d, "mbo/hash/hash_mangle_seed_gen.h"), head.replace("@MANGLE_CONSTANT@", "0x9E3779B97F4A7C15ULL"))
    return d


def _write(path, text):
    if os.path.exists(path) and open(path).read() == text:
        return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".%d.tmp" % os.getpid()
    with open(tmp, "w") as f:
        f.write(text)
    os.replace(tmp, path)


def compile_one(src, obj, flags, opt):
    cmd = [CXX] + STD + opt + flags + ["-c", src, "-o", obj]
    stamp = obj + ".json"
    cmdkey = hashlib.sha256(("v2 " + " ".join(cmd) + (" ".join(REDIRECT) if "-fsanitize=thread" in flags else "")).encode()).hexdigest()
    try:
        st = json.load(open(stamp))
        if st["cmd"] == cmdkey and os.path.exists(obj) and all(sha(p) == h for p, h in st["deps"].items()):
            return obj
    except (OSError, ValueError, KeyError):
        pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    dep = obj + ".d"
    r = subprocess.run(cmd + ["-MD", "-MF", dep], cwd=REPO, capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError("compile failed: %s\n%s" % (" ".join(cmd), r.stderr[:6000]))
    if "-fsanitize=thread" in flags:
        r = subprocess.run(["objcopy"] + ["--redefine-sym=%s=__wrap_%s" % (f, f) for f in REDIRECT] + [obj], capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError("objcopy failed: " + r.stderr)
    deps = open(dep).read().replace("\\\n", " ").split(":", 1)[1].split()
    deps = [p if os.path.isabs(p) else os.path.join(REPO, p) for p in deps if not p.startswith("/usr/")]
    json.dump({"cmd": cmdkey, "deps": {p: sha(p) for p in deps}}, open(stamp, "w"))
    return obj


def lib_sources(*dirs):
    """All library sources of the given /repo directories: no tests, mains, benchmarks or fuzzers."""
    out = []
    for d in dirs:
        base = os.path.join(REPO, d)
        if os.path.isfile(base):
            out.append(base)
            continue
        for f in sorted(os.listdir(base)):
            if f.endswith(".cc") and not re.search(r"(_test|_main|_benchmark|_fuzz_test|_gen|_tool)\.cc$", f):
                out.append(os.path.join(base, f))
    return out


class Target:
    """name; sources: list of path or (path, [extra flags]); flags common; link flags."""

    def __init__(self, name, sources, flags=(), opt=("-O1",), link=(), require_throws=False, unroll=16, exceptions=False,
                 absl=False, san=None, sim_flags=()):
        self.name, self.sources, self.flags, self.opt, self.link = name, list(sources), list(flags), list(opt), list(link)
        self.require_throws, self.unroll, self.exceptions, self.absl = require_throws, unroll, exceptions, absl
        self.san = list(ASAN if san is None else san)
        self.sim_flags = list(sim_flags)


def build(targets):
    """Builds all targets; returns {name: exe}."""
    jobs, exes = [], {}
    objs = {}
    for t in targets:
        gen = gen_headers(t.require_throws, t.unroll)
        inc = ["-iquote", REPO, "-iquote", gen, "-iquote", VERIF, "-I", os.path.join(VERIF, "sim")]
        if t.absl:
            inc += ["-isystem", os.path.join(VERIF, "shim")]
        common = t.san + inc + t.flags + ([] if t.exceptions else ["-fno-exceptions"])
        lst = []
        for s in t.sources:
            extra = []
            if isinstance(s, tuple):
                s, extra = s
            if not os.path.isabs(s):
                s = os.path.join(VERIF, s)
            rel = s.replace("/", "_").lstrip("_")
            key = hashlib.sha256(json.dumps([common, extra, t.opt]).encode()).hexdigest()[:10]
            obj = os.path.join(BUILD, "obj", key, rel + ".o")
            lst.append(obj)
            jobs.append((obj, s, common + extra, t.opt))
        objs[t.name] = lst
    uniq = {}
    for o, s, f, opt in jobs:
        uniq[o] = (s, f, opt)
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        futs = [ex.submit(compile_one, s, o, f, opt) for o, (s, f, opt) in uniq.items()]
        errs = []
        for f in futs:
            try:
                f.result()
            except BuildError as e:
                errs.append(str(e))
        if errs:
            raise BuildError("\n".join(errs[:3]))

    def link(t):
        exe = os.path.join(BUILD, "bin", t.name)
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        cmd = [CXX] + t.san + ["-pthread", "-o", exe] + objs[t.name] + t.link
        key = hashlib.sha256((" ".join(cmd) + "".join(_sha(o) for o in objs[t.name])).encode()).hexdigest()
        st = exe + ".key"
        if os.path.exists(exe) and os.path.exists(st) and open(st).read() == key:
            return exe
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError("link failed: %s\n%s" % (" ".join(cmd), r.stderr[-6000:]))
        with open(st, "w") as f:
            f.write(key)
        return exe

    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for t, exe in zip(targets, ex.map(link, targets)):
            exes[t.name] = exe
    return exes
