"""Run the command line tools: in this process (monitored) or as real subprocesses."""
import contextlib
import io
import logging
import os
import subprocess
import sys
import traceback

from .common import REPO

PY = "/opt/venv/bin/python"
_CODE = {}


class Result:
    def __init__(self, status, out, err, exc=None):
        self.status, self.out, self.err, self.exc = status, out, err, exc

    def text(self):
        return self.out + self.err

    def __repr__(self):
        return "status %s, out %r, err %r" % (self.status, self.out[-300:], self.err[-300:])


def _load(tool):
    fn = os.path.join(REPO, tool)
    if tool not in _CODE:
        with open(fn, encoding="utf-8") as fh:
            _CODE[tool] = compile(fh.read(), fn, "exec")
    return fn, _CODE[tool]


def run(tool, args, env=None):
    """Run in-process as __main__; what a shell would see comes back."""
    fn, code = _load(tool)
    out, err = io.StringIO(), io.StringIO()
    argv, root = sys.argv, logging.getLogger()
    handlers, level, disabled = root.handlers[:], root.level, logging.root.manager.disable
    old_env = dict(os.environ)
    status, exc = 0, None
    try:
        os.environ.pop("OCFL_ROOT", None)
        os.environ.update(env or {})
        sys.argv = [fn] + list(args)
        root.handlers[:] = []
        root.setLevel(logging.WARNING)
        logging.disable(logging.NOTSET)
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                exec(code, {"__name__": "__main__", "__file__": fn, "__builtins__": __builtins__})  # noqa: S102
            except SystemExit as e:
                c = e.code
                if isinstance(c, str):
                    err.write(c + "\n")
                status = 0 if c is None else (c if isinstance(c, int) else 1)
            except Exception as e:  # pylint: disable=broad-except
                status, exc = 1, e
                err.write(traceback.format_exc())
    finally:
        sys.argv = argv
        for h in root.handlers:
            h.flush()
        root.handlers[:] = handlers
        root.setLevel(level)
        logging.disable(disabled)
        for k in set(os.environ) - set(old_env):
            del os.environ[k]
        os.environ.update(old_env)
    return Result(status & 255, out.getvalue(), err.getvalue(), exc)


def spawn(tool, args, env=None, cwd=None):
    """Run as a real process."""
    e = {k: v for k, v in os.environ.items() if k not in ("OCFL_ROOT", "PYTHONPATH")}
    e.update({"PYTHONDONTWRITEBYTECODE": "1", "PYTHONUTF8": "1"})
    e.update(env or {})
    p = subprocess.run([PY, "-W", "ignore", os.path.join(REPO, tool)] + list(args), env=e, cwd=cwd,
                       stdin=subprocess.DEVNULL, capture_output=True, timeout=90, check=False)
    return Result(p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace"))
