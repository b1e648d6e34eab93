"""Loads a tool from the repository under test and runs its command line in process (one run in a while as a real process)."""
import contextlib, importlib.util, io, os, subprocess, sys

sys.dont_write_bytecode = True
REPO = os.environ.get("SIM_REPO", "/repo")


def load(name):
    path = os.path.join(REPO, "tools", name + ".py")
    spec = importlib.util.spec_from_file_location(name, path)
    mod = importlib.util.module_from_spec(spec)
    sys.modules[name] = mod
    spec.loader.exec_module(mod)
    return mod


def cli(mod, argv, stdin="", takes_argv=False):
    """Returns (status, stdout)."""
    out, err = io.StringIO(), io.StringIO()
    argv0, in0 = sys.argv, sys.stdin
    sys.argv, sys.stdin = [mod.__file__] + argv, io.StringIO(stdin)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                rc = mod.main(sys.argv) if takes_argv else mod.main()
            except SystemExit as e:
                rc = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
    finally:
        sys.argv, sys.stdin = argv0, in0
    return (rc or 0), out.getvalue()


def process(mod, argv, stdin="", cwd=None):
    r = subprocess.run([sys.executable, "-B", mod.__file__] + argv, input=stdin, capture_output=True, text=True, cwd=cwd,
                       env={"PATH": os.environ.get("PATH", ""), "PYTHONDONTWRITEBYTECODE": "1", "TZ": "UTC"})
    return r.returncode, r.stdout
