"""Runs a tool of the repository as its own (forked or executed) process whose file operations go through pyfault.c."""
import ctypes, gc, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
KINDS = "open create read write close opendir readdir stat rename unlink mkdir sync trunc link chmod".split()
ACTIONS = ["", "fail", "short", "interrupted", "killed before", "killed after", "killed half way through"]
FAIL, SHORT, INTR, KILL, KILL_AFTER, KILL_TORN = range(1, 7)


def ensure():
    """Builds the interposer and restarts Python under it."""
    src = os.path.join(HERE, "pyfault.c")
    so = os.path.join(os.environ.get("SIM_BUILD", os.path.join(VERIF, "build")), "pyfault-%s.so" % hashlib.sha256(open(src, "rb").read()).hexdigest()[:16])
    if not os.path.exists(so):
        os.makedirs(os.path.dirname(so), exist_ok=True)
        tmp = "%s.%d" % (so, os.getpid())
        subprocess.check_call(["gcc", "-O2", "-shared", "-fPIC", "-w", src, "-o", tmp, "-ldl"])
        os.replace(tmp, so)
    if os.environ.get("LD_PRELOAD") != so or os.environ.get("PYTHONHASHSEED") != "0":
        os.environ.update(LD_PRELOAD=so, PYTHONHASHSEED="0", TZ="UTC", LC_ALL="C.UTF-8")
        os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)
    return so


class Plan(ctypes.Structure):
    _fields_ = [("op", ctypes.c_int), ("action", ctypes.c_int), ("err", ctypes.c_int), ("fired", ctypes.c_int)]


class Log(ctypes.Structure):
    _fields_ = [("kind", ctypes.c_ubyte), ("what", ctypes.c_ubyte), ("action", ctypes.c_ubyte), ("pad", ctypes.c_ubyte), ("err", ctypes.c_int), ("name", ctypes.c_char * 56)]


class Shm(ctypes.Structure):
    _fields_ = [("on", ctypes.c_int), ("count", ctypes.c_int), ("stdout_too", ctypes.c_int), ("nplans", ctypes.c_int), ("plan", Plan * 8),
                ("nlog", ctypes.c_int), ("log", Log * 4000), ("root", ctypes.c_char * 256)]


class Result:
    status, killed, out, err, log, count, fired = 0, False, b"", b"", (), 0, ()


class Box:
    """One scratch tree below which operations are numbered and may fail."""

    def __init__(self, tag):
        self.so = ensure()
        base = "/dev/shm" if os.path.isdir("/dev/shm") else None
        self.dir = tempfile.mkdtemp(prefix=tag + ".", dir=base)
        self.root = os.path.join(self.dir, "root")
        self.shm_path = os.path.join(self.dir, "shm")
        self.lib = ctypes.CDLL(None)
        self.lib.fault_map.restype = ctypes.c_void_p
        self.lib.fault_map.argtypes = [ctypes.c_char_p]
        assert self.lib.fault_size() == ctypes.sizeof(Shm)
        self.shm = Shm.from_address(self.lib.fault_map(self.shm_path.encode()))
        self.codes = {}
        import argparse
        warm = argparse.ArgumentParser(prog="x")
        warm.add_argument("--y", action="store_true")
        warm.add_argument("z", nargs="*")
        warm.parse_args(["--y", "z"])
        import atexit
        self.owner = os.getpid()
        atexit.register(lambda: os.getpid() == self.owner and shutil.rmtree(self.dir, ignore_errors=True))

    def reset(self):
        shutil.rmtree(self.root, ignore_errors=True)
        os.mkdir(self.root)

    def code(self, path):
        if path not in self.codes:
            self.codes[path] = compile(open(path).read(), path, "exec")
            sys.path.insert(0, os.path.dirname(path))
            try:  # fills the regular expression and module caches the forks share
                exec(self.codes[path], {"__name__": "warm", "__file__": path, "__builtins__": __builtins__})
            except BaseException:
                pass
            sys.path.pop(0)
        return self.codes[path]

    def arm(self, plans, stdout_too):
        s = self.shm
        s.on, s.count, s.nlog, s.nplans, s.stdout_too = 0, 0, 0, len(plans), int(stdout_too)
        s.root = self.root.encode()
        for i, (op, action, err) in enumerate(plans):
            s.plan[i] = Plan(op, action, err, 0)

    def run(self, argv, plans=(), cwd=None, env=None, stdout_too=False, as_process=False, stdin=b""):
        """argv[0] is a Python file (run in a fork) or, as_process, any command."""
        if not as_process:
            self.code(argv[0])
        self.arm(plans, stdout_too)
        out, err, inp = (os.path.join(self.dir, n) for n in ("out", "err", "in"))
        with open(inp, "wb") as f:
            f.write(stdin)
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                self.child(argv, cwd or self.root, env, stdout_too, as_process, out, err, inp)
            finally:
                os._exit(99)
        _, st = os.waitpid(pid, 0)
        self.shm.on = 0
        r = Result()
        r.killed = os.WIFSIGNALED(st)
        r.status = -os.WTERMSIG(st) if r.killed else os.WEXITSTATUS(st)
        r.out, r.err = open(out, "rb").read(), open(err, "rb").read()
        n = min(self.shm.nlog, 4000)
        r.log = [(KINDS[e.kind], e.what, e.action, e.err, e.name.decode("utf-8", "replace")) for e in self.shm.log[:n]]
        r.count = self.shm.count
        r.fired = [(l[0], l[2], l[3], l[4]) for l in r.log if l[2]]
        return r

    def child(self, argv, cwd, env, stdout_too, as_process, out, err, inp):
        for path, fd, flags in ((inp, 0, os.O_RDONLY), (out, 1, os.O_WRONLY | os.O_CREAT | os.O_TRUNC), (err, 2, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)):
            k = os.open(path, flags, 0o600)
            os.dup2(k, fd)
            os.close(k)
        os.chdir(cwd)
        os.environ.update(env or {})
        if as_process:
            full = dict(os.environ, SIM_FAULT_SHM=self.shm_path, PYTHONDONTWRITEBYTECODE="1")
            if stdout_too:
                full["SIM_FAULT_STDOUT"] = "1"
            self.shm.on = 1
            cmd = [sys.executable, "-B"] + argv if argv[0].endswith(".py") else argv
            os.execvpe(cmd[0], cmd, full)
        gc.disable()
        code = self.codes[argv[0]]
        sys.argv = list(argv)
        sys.stdin = open(0, "r", encoding="utf-8", closefd=False)
        sys.stdout = open(1, "w", encoding="utf-8", closefd=False)
        sys.stderr = open(2, "w", encoding="utf-8", closefd=False, buffering=1, errors="backslashreplace")
        sys.path.insert(0, os.path.dirname(argv[0]))
        self.lib.fault_forget()
        if stdout_too:
            self.lib.fault_stdout()
        status = 0
        self.shm.on = 1
        try:
            exec(code, {"__name__": "__main__", "__file__": argv[0], "__builtins__": __builtins__})
        except SystemExit as e:
            if e.code is None or isinstance(e.code, int):
                status = (e.code or 0) & 0xFF
            else:
                print(e.code, file=sys.stderr)
                status = 1
        except BaseException:
            traceback.print_exc()
            status = 1
        try:
            sys.stdout.flush()
        except BaseException as e:
            status = 120
            print("Exception ignored in: <stdout>", repr(e), file=sys.stderr)
        try:
            sys.stderr.flush()
        except BaseException:
            pass
        os._exit(status)


def draw_plans(sim, count, kills=True, most=3):
    """Up to `most` faults at operations of a run that would do `count` of them."""
    plans = []
    for _ in range(sim.choose(most + 1)):
        op = sim.choose(count + 2)
        a = sim.choose(10 if kills else 7)
        action = FAIL if a < 5 else SHORT if a == 5 else INTR if a == 6 else (KILL, KILL_AFTER, KILL_TORN)[a - 7]
        if op not in [p[0] for p in plans]:
            plans.append((op, action, sim.choose(4)))
    return plans


def note(sim, res, keep=lambda name: True):
    """Puts a run's operations into the trace; names the simulation does not know are temporaries."""
    for kind, what, action, err, name in res.log:
        if action:
            sim.fault("%s %s" % (kind, ACTIONS[action] + (" (%s)" % os.strerror(err) if action == FAIL else "")))
    sim.ev("  operations: " + " ".join("%s(%s)" % (k, n if keep(n) else "temp") + ("!" + ACTIONS[a] if a else "") for k, w, a, e, n in res.log))
    sim.ev("  -> %s" % ("killed" if res.killed else "status %d" % res.status))


class Helper(ctypes.Structure):
    _fields_ = [("role", ctypes.c_char * 64), ("nth", ctypes.c_int), ("action", ctypes.c_int), ("seen", ctypes.c_int), ("fired", ctypes.c_int),
                ("ncalls", ctypes.c_int), ("calls", (ctypes.c_char * 64) * 400)]


HELPER_ACTIONS = ["", "killed", "failed", "failed after its work", "killed half way through its output", "not found", "something else happens first", "script killed before", "script killed after"]


class Helpers:
    """The commands a script may call; `real` maps a name to a stand-in script, other names to /usr/bin."""

    def __init__(self, box, names):
        src = os.path.join(HERE, "helper.c")
        exe = os.path.join(os.path.dirname(box.so), "helper-%s" % hashlib.sha256(open(src, "rb").read()).hexdigest()[:16])
        if not os.path.exists(exe):
            tmp = "%s.%d" % (exe, os.getpid())
            subprocess.check_call(["gcc", "-O2", "-w", src, "-o", tmp], env=dict(os.environ, LD_PRELOAD=""))
            os.replace(tmp, exe)
        self.bin, self.real, self.shm_path = (os.path.join(box.dir, n) for n in ("bin", "real", "helper"))
        os.mkdir(self.bin)
        os.mkdir(self.real)
        for n in names:
            os.symlink(exe, os.path.join(self.bin, n))
        import mmap
        with open(self.shm_path, "w+b") as f:
            f.truncate(ctypes.sizeof(Helper))
            self.map = mmap.mmap(f.fileno(), ctypes.sizeof(Helper))
        self.shm = Helper.from_buffer(self.map)
        for n in ("bash", "sh", "cat", "which", "python3", "env", "dirname", "uname"):  # nothing else is found on PATH
            if not os.path.exists(os.path.join(self.bin, n)):
                os.symlink(shutil.which(n), os.path.join(self.bin, n))
        self.env = {"PATH": self.bin, "SIM_HELPER": self.shm_path, "SIM_REAL_DIR": self.real}

    def stand_in(self, name, text):
        p = os.path.join(self.real, name)
        with open(p, "w") as f:
            f.write(text)
        os.chmod(p, 0o755)

    def arm(self, role="", nth=0, action=0):
        s = self.shm
        s.role, s.nth, s.action, s.seen, s.fired, s.ncalls = role.encode(), nth, action, 0, 0, 0

    def calls(self):
        return [self.shm.calls[i].value.decode("utf-8", "replace") for i in range(min(400, self.shm.ncalls))]
