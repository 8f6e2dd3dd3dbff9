"""Runs the real command line of vss-tools, one forked process per call.

The parent imports the tool (from /repo/src) and resolves every exporter once;
every call is a fork that changes into the case directory and runs the click
entry point exactly as the `vspec` script does.  A fork gives each call the
fresh process-wide state the real tool has, at a few milliseconds per call.
"""
from __future__ import annotations

import os
import signal
import subprocess
import sys
import time
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
PY = "/opt/venv/bin/python"

_cli = None
IMPORT_ERROR = None


def load():
    """Import the tool. Must run before workers are forked."""
    global _cli, IMPORT_ERROR
    if _cli is not None:
        return
    sys.dont_write_bytecode = True
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    import vss_tools.vspec.cli as c

    mod = os.path.realpath(c.__file__)
    if not mod.startswith(os.path.realpath(SRC) + os.sep):
        raise RuntimeError(f"imported {mod}, expected it below {SRC}")
    import click

    ctx = click.Context(c.cli)
    grp = c.cli.get_command(ctx, "export")
    if grp is None:
        raise RuntimeError("no export group")
    for name in grp.list_commands(ctx):
        try:
            grp.get_command(ctx, name)
        except Exception:  # reported by the calls that need it
            IMPORT_ERROR = (IMPORT_ERROR or "") + f"{name}: {traceback.format_exc()}\n"
    import gc

    gc.collect()
    gc.freeze()
    _cli = c.cli


class Res:
    __slots__ = ("code", "out", "crashed", "timeout", "args", "exc")

    def __init__(self, code, out, crashed, timeout, args, exc=""):
        self.code, self.out, self.crashed, self.timeout, self.args, self.exc = code, out, crashed, timeout, args, exc

    @property
    def ok(self):
        return self.code == 0

    def brief(self):
        return {"args": list(self.args), "exit": self.code, "exception": self.exc, "tail": self.out[-1500:]}


class Timeout(Exception):
    pass


def vspec(args, cwd, timeout=120, env=None, hook=None):
    """vspec <args> in cwd. Returns Res(code, combined output, uncaught exception?). hook: an audit hook of the call's process."""
    args = [str(a) for a in args]
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            os.dup2(w, 1)
            os.dup2(w, 2)
            nul = os.open("/dev/null", os.O_RDONLY)
            os.dup2(nul, 0)
            sys.stdout = os.fdopen(1, "w", encoding="utf-8", errors="backslashreplace")
            sys.stderr = sys.stdout
            os.chdir(cwd)
            os.environ["COLUMNS"] = "160"
            os.environ["TERM"] = "dumb"
            if env:
                os.environ.update(env)
            sys.argv = ["vspec"] + args
            signal.alarm(int(timeout) + 30)
            if hook is not None:
                sys.addaudithook(hook)
            try:
                _cli.main(args=args, prog_name="vspec")
                code = 0
            except SystemExit as e:
                c = e.code
                code = c if isinstance(c, int) else (0 if c is None else 1)
            except BaseException as e:
                code = 1
                print("\n@@UNCAUGHT " + type(e).__name__ + ": " + str(e)[:300].replace("\n", " "))
                traceback.print_exc()
            sys.stdout.flush()
        except BaseException:
            try:
                traceback.print_exc()
                sys.stdout.flush()
            except BaseException:
                pass
            code = 97
        finally:
            os._exit(code & 0xFF)
    os.close(w)
    chunks = []
    end = time.monotonic() + timeout
    timed = False
    import select

    while True:
        left = end - time.monotonic()
        if left <= 0:
            timed = True
            os.kill(pid, signal.SIGKILL)
            break
        rl, _, _ = select.select([r], [], [], min(left, 5))
        if rl:
            b = os.read(r, 65536)
            if not b:
                break
            chunks.append(b)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(st)
    out = b"".join(chunks).decode("utf-8", "replace")
    exc = ""
    crashed = "\n@@UNCAUGHT " in out
    if crashed:
        exc = out.split("\n@@UNCAUGHT ", 1)[1].split("\n", 1)[0]
    if timed:
        raise Timeout(f"vspec {' '.join(args)} did not finish in {timeout}s")
    if code == 97:
        raise RuntimeError("harness failure in forked call: " + out[-2000:])
    return Res(code, out, crashed, timed, args, exc)


def vspec_process(args, cwd, hashseed="0", timeout=180, extra_env=None):
    """The same through a new interpreter (fresh hash seed, fresh imports)."""
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env.update({"PYTHONHASHSEED": str(hashseed), "PYTHONDONTWRITEBYTECODE": "1", "PYTHONPATH": SRC,
                "COLUMNS": "160", "TERM": "dumb"})
    env.update(extra_env or {})
    try:
        p = subprocess.run([PY, "-c", "import sys; from vss_tools.vspec.cli import cli; sys.exit(cli(prog_name='vspec'))"]
                           + [str(a) for a in args],
                           cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Timeout(f"vspec process {' '.join(map(str, args))} did not finish in {timeout}s")
    out = p.stdout.decode("utf-8", "replace")
    crashed = "Traceback (most recent call last)" in out
    return Res(p.returncode, out, crashed, False, args, "")
