"""Runs the real command line of vss-tools, one forked process per command.

The parent imports the command line (and, best effort, its subcommands) once;
every command then runs in a fresh fork of that import-only state, so no global
state leaks from one run to the next - exactly as for separate invocations.
"""
import gc
import json
import os
import resource
import shutil
import signal
import sys
import tempfile
import traceback

_cli = None


class Inconclusive(Exception):
    """The harness could not get an answer (never a violation)."""


class Violation(Exception):
    def __init__(self, msg):
        super().__init__(msg)
        self.msg = msg


def preload():
    global _cli
    if _cli is not None:
        return
    # warm up everything that click / rich import lazily
    from vss_tools.vspec.cli import cli

    try:
        import click

        exp = cli.commands["export"]
        ctx = click.Context(exp)
        for name in exp.list_commands(ctx):
            try:
                exp.get_command(ctx, name)
            except Exception:
                pass
    except Exception:
        pass
    _cli = cli
    gc.collect()
    gc.freeze()


class Res:
    __slots__ = ("argv", "code", "stdout", "log", "uncaught", "signal")

    def __init__(self, argv, code, stdout, log, uncaught, sig):
        self.argv, self.code, self.stdout, self.log, self.uncaught, self.signal = argv, code, stdout, log, uncaught, sig

    @property
    def ok(self):
        return self.code == 0

    def tail(self, n=600):
        t = (self.log or "") + "\n" + (self.uncaught or "")
        t = t.strip() or self.stdout.strip()
        return t[-n:]


class Box:
    """A scratch directory for one generated case."""

    def __init__(self, base):
        self.base = base
        self.n = 0
        self.commands = 0
        self.root = None

    def reset(self):
        if self.root:
            shutil.rmtree(self.root, ignore_errors=True)
        self.n += 1
        self.root = os.path.join(self.base, "c%d" % self.n)
        os.makedirs(self.root)
        return self

    def path(self, *p):
        return os.path.join(self.root, *p)

    def write(self, rel, content):
        p = self.path(rel)
        d = os.path.dirname(p)
        if not os.path.isdir(d):
            os.makedirs(d)
        if isinstance(content, str):
            content = content.encode("utf-8")
        with open(p, "wb") as f:
            f.write(content)
        return rel

    def exists(self, rel):
        return os.path.exists(self.path(rel))

    def read(self, rel, mode="r"):
        if mode == "rb":
            with open(self.path(rel), "rb") as f:
                return f.read()
        with open(self.path(rel), "r", encoding="utf-8", newline="") as f:
            return f.read()

    def json(self, rel):
        return json.loads(self.read(rel))

    def yaml(self, rel):
        import yaml

        return yaml.load(self.read(rel), Loader=getattr(yaml, "CSafeLoader", yaml.SafeLoader))

    def tree_listing(self):
        out = {}
        for d, _, fs in os.walk(self.root):
            for f in fs:
                p = os.path.join(d, f)
                with open(p, "rb") as h:
                    out[os.path.relpath(p, self.root)] = h.read()
        return out

    def export(self, exporter, *args, cwd=None, level="ERROR", pre=()):
        """vspec [pre] export EXPORTER args... run inside the box."""
        self.commands += 1
        meta = os.path.join(self.base, "meta")
        logf = os.path.join(self.base, "log")
        argv = list(pre) + ["--log-level", level, "--log-file", logf]
        argv += ["export", exporter] + [str(a) for a in args]
        return run_cli(argv, cwd or self.root, meta, logf)

    def must(self, exporter, *args, why="", **kw):
        r = self.export(exporter, *args, **kw)
        if not r.ok:
            raise Violation(
                "'%s' rejected a valid input (exit %s)%s: %s" % (exporter, r.code, " [" + why + "]" if why else "", r.tail())
            )
        return r


def run_cli(argv, cwd, meta, logf, cpu=30):
    preload()
    for s in (".out", ".tb"):
        try:
            os.unlink(meta + s)
        except FileNotFoundError:
            pass
    if logf and os.path.exists(logf):
        os.unlink(logf)
    pid = os.fork()
    if pid == 0:
        code = 97
        try:
            fd = os.open(meta + ".out", os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
            os.dup2(fd, 1)
            os.dup2(fd, 2)
            os.close(fd)
            nul = os.open(os.devnull, os.O_RDONLY)
            os.dup2(nul, 0)
            sys.stdout = open(1, "w", encoding="utf-8", errors="replace", closefd=False)
            sys.stderr = open(2, "w", encoding="utf-8", errors="replace", closefd=False)
            sys.stdin = open(0, "r", closefd=False)
            os.chdir(cwd)
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(400)
            sys.argv = ["vspec"] + argv
            sys.setrecursionlimit(1000)
            try:
                _cli.main(args=argv, prog_name="vspec", standalone_mode=True)
                code = 0
            except SystemExit as e:
                c = e.code
                code = 0 if c is None else (c & 255 if isinstance(c, int) else 1)
            except BaseException:
                with open(meta + ".tb", "w", encoding="utf-8", errors="replace") as f:
                    traceback.print_exc(file=f)
                code = 1
            try:
                sys.stdout.flush()
                sys.stderr.flush()
            except Exception:
                pass
            import logging

            for h in logging.getLogger("vss-tools").handlers:
                try:
                    h.flush()
                except Exception:
                    pass
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else 0
    if sig == signal.SIGALRM or sig == signal.SIGKILL and False:
        raise Inconclusive("command did not finish in time: %r" % (argv,))
    code = os.WEXITSTATUS(status) if os.WIFEXITED(status) else -sig

    def rd(p):
        try:
            with open(p, "r", encoding="utf-8", errors="replace") as f:
                return f.read()
        except FileNotFoundError:
            return ""

    if code == 97 and not sig:
        raise Inconclusive("harness child failed before the command: %s" % rd(meta + ".out")[-2000:])
    tb = rd(meta + ".tb") or None
    if sig == signal.SIGXCPU or (sig == signal.SIGKILL):
        tb = "killed by signal %d (CPU or memory limit)" % sig
    return Res(argv, code, rd(meta + ".out"), rd(logf) if logf else "", tb, sig)


class judging:
    """Output of the tool that the oracle cannot even read is a violation."""

    def __init__(self, what):
        self.what = what

    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        if t is None or issubclass(t, (Violation, Inconclusive)) or not issubclass(t, Exception):
            return False
        if t.__module__.startswith("hypothesis"):
            return False
        where = traceback.extract_tb(tb)[-1]
        raise Violation("%s: output is not as specified (%s: %s at %s:%s)" % (self.what, t.__name__, v, os.path.basename(where.filename), where.lineno)) from v


def new_base():
    return tempfile.mkdtemp(prefix="vv.")
