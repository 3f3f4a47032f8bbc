"""Monitors that watch the interpreter while the real code runs.

* FsMonitor: a sys.addaudithook hook that sees every open/mkdir/remove/rename/...
  made by Python code in this process, whatever library made it.  It records the
  events of the current recording window, blocks writes that leave the scratch
  area (containment: nothing under test can damage the sandbox), and can inject
  an I/O error or a process death at the k-th mutating event.
* LineMonitor: sys.monitoring LINE events of /repo/ocfl, for the evidence files.
"""
import errno
import hashlib
import os
import sys

MUTATING_CALLS = {
    "os.mkdir": 1, "os.remove": 1, "os.rmdir": 1, "os.rename": 2,
    "os.truncate": 1, "os.link": 2, "os.symlink": 2, "os.chmod": 1, "os.chown": 1,
    "os.utime": 1, "os.mkfifo": 1, "os.mknod": 1,
}
WRITE_FLAGS = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


def _as_path(p):
    try:
        if isinstance(p, int):
            return None
        p = os.fspath(p)
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return os.path.normpath(p if p.startswith("/") else os.path.join(os.getcwd(), p))
    except Exception:  # noqa
        return None


class FsMonitor:
    """See the module docstring."""

    def __init__(self):
        self.enabled = False
        self.allowed = []       # prefixes in which writing is allowed
        self.events = None      # list when recording
        self.escapes = []
        self.fault = None       # function(event dict) -> None or raises
        self.fault_reads = False  # also offer reads and listings inside the scratch area to fault
        self.total = 0
        self._busy = False
        self.installed = False
        self.watch_reads = False
        self.sched = None       # called before each event inside the scratch area (vf/sched.py)

    def install(self):
        if not self.installed:
            sys.addaudithook(self._hook)
            self.installed = True

    def start(self, reads=False):
        self.events = []
        self.watch_reads = reads

    def stop(self):
        ev, self.events = self.events or [], None
        self.watch_reads = False
        return ev

    def _ok(self, path):
        for a in self.allowed:
            if path == a or path.startswith(a + "/"):
                return True
        return path in ("/dev/null", "/dev/tty")

    def _hook(self, event, args):
        if not self.enabled or self._busy:
            return
        if event == "open":
            self._busy = True
            try:
                path, mode, flags = args
                p = _as_path(path)
                if p is None:
                    return
                writing = bool((flags or 0) & WRITE_FLAGS) if isinstance(flags, int) else False
                if isinstance(mode, str) and any(c in mode for c in "wax+"):
                    writing = True
                if writing:
                    rec = {"op": "write", "path": p, "fresh": not os.path.lexists(p),
                           "trunc": bool((flags or 0) & os.O_TRUNC) or (isinstance(mode, str) and "w" in mode)}
                elif self.watch_reads or self.fault_reads or self.sched is not None:
                    rec = {"op": "read", "path": p}
                else:
                    return
            finally:
                self._busy = False
            self._seen(rec, writing, [p])
        elif event in MUTATING_CALLS:
            self._busy = True
            try:
                n = MUTATING_CALLS[event]
                ps = [_as_path(a) for a in (args[:n] if event != "os.symlink" else args[1:2])]
                ps = [p for p in ps if p is not None]
                rec = {"op": event[3:], "path": ps[0] if ps else None}
                if len(ps) > 1:
                    rec["path2"] = ps[1]
                if event == "os.mkdir" and ps:
                    rec["fresh"] = not os.path.lexists(ps[0])
            finally:
                self._busy = False
            self._seen(rec, True, ps)
        elif event in ("os.listdir", "os.scandir") and (self.watch_reads or self.fault_reads or self.sched is not None):
            p = _as_path(args[0]) if args and args[0] is not None else None
            if p is not None:
                self._seen({"op": "list", "path": p}, False, [])

    def _seen(self, rec, mutating, paths):
        self.total += 1
        if self.events is not None:
            self.events.append(rec)
        if mutating:
            for p in paths:
                if not self._ok(p):
                    self.escapes.append(rec)
                    raise PermissionError(errno.EPERM, "vf: blocked write outside the scratch area", p)
        if self.sched is not None and rec["path"] and self._ok(rec["path"]):
            self.sched(rec)
        if self.fault is not None:
            if mutating or (self.fault_reads and self._ok(rec["path"])):
                self._busy = True
                try:
                    self.fault(rec)
                finally:
                    self._busy = False


FS = FsMonitor()


class LineMonitor:
    """Set of (file, line) of the library executed in this process."""

    def __init__(self, prefixes):
        self.prefixes = tuple(prefixes)
        self.lines = set()

    def install(self):
        mon = getattr(sys, "monitoring", None)
        if mon is None:
            return
        tid = mon.COVERAGE_ID
        try:
            mon.use_tool_id(tid, "vf")
        except ValueError:
            return
        lines, prefixes, disable = self.lines, self.prefixes, mon.DISABLE

        def on_line(code, line):
            fn = code.co_filename
            if fn.startswith(prefixes):
                lines.add((fn, line))
            return disable
        mon.register_callback(tid, mon.events.LINE, on_line)
        mon.set_events(tid, mon.events.LINE)


def snapshot(path):
    """Relative path -> content digest (or kind) of everything under path."""
    snap = {}
    if not os.path.isdir(path):
        if os.path.lexists(path):
            with open(path, "rb") as fh:
                snap["."] = hashlib.sha1(fh.read()).hexdigest()
        return snap
    snap["."] = "dir"
    for d, dirs, files in os.walk(path):
        for n in dirs:
            snap[os.path.relpath(os.path.join(d, n), path)] = "dir"
        for n in files:
            p = os.path.join(d, n)
            if os.path.islink(p):
                snap[os.path.relpath(p, path)] = "link:" + os.readlink(p)
                continue
            with open(p, "rb") as fh:
                snap[os.path.relpath(p, path)] = hashlib.sha1(fh.read()).hexdigest()
    return snap


def snap_diff(a, b, limit=6):
    """Human readable difference of two snapshots ('' if none)."""
    out = []
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            out.append("%s: %s -> %s" % (k, (a.get(k) or "absent")[:12], (b.get(k) or "absent")[:12]))
    return "; ".join(out[:limit]) + (" ..." if len(out) > limit else "")


def read_tree(path):
    """Relative file path -> bytes, for every file under path."""
    out = {}
    for d, _, files in os.walk(path):
        for n in files:
            p = os.path.join(d, n)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, path)] = fh.read()
    return out


def write_tree(path, files):
    """Write {relpath: bytes} under path (created)."""
    os.makedirs(path, exist_ok=True)
    for rel, data in files.items():
        p = os.path.join(path, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as fh:
            fh.write(data)
