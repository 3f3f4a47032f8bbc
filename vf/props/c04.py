"""C04: a failed or interrupted write never passes for a complete one."""
import errno
import json
import os
import resource
import shutil
import signal

from vf import lib, oracle
from vf.common import HarnessError
from vf.monitors import FS, read_tree, snapshot, snap_diff
from vf.session import Session

ID = "C04"
LEVEL = "fault_enumeration"
QUICK, THOROUGH = 260, 5000
MIN_DISTINCT = 50
RULE = ("For each create, build, update (six entry points, with and without digest change) and extract of generated histories: one recorded run counts the mutating file-system events, then the operation is repeated "
        "from the same start with (1) an I/O error at the k-th mutating event, (2) process death at it, (3) process death in the middle of the file it writes, (4) an I/O error at the k-th read or listing, "
        "(5) a file-size limit, for every k when there are at most 24 events, else a sample. After each, the resulting object is compared with the old and the new object, validated, and its earlier versions recovered. "
        "Distinct by operation, mode, and position of the fault.")
ASSUMPTIONS = ["Faults are at operation granularity of the local file system (open, mkdir, remove, rename) plus torn and failed writes; write reordering by the kernel after power loss is not modelled.",
               "Returning success although an operation failed is accepted only if the result is exactly the complete new object."]
ERRS = [errno.EIO, errno.ENOSPC, errno.EACCES, errno.EROFS, errno.EDQUOT, errno.EPERM, errno.ENOENT, errno.EEXIST, errno.ENOTDIR, errno.EISDIR, errno.ENOTEMPTY, errno.ETIMEDOUT,
        errno.ESTALE, errno.ENAMETOOLONG, errno.EBUSY]
READ_ERRS = [errno.EIO, errno.EACCES, errno.EMFILE, errno.EPERM, errno.ENOENT, errno.EISDIR, errno.ENOTDIR, errno.ETIMEDOUT, errno.ESTALE]


class Stop(Exception):
    pass


def attempt(fn):
    try:
        fn()
        return "ok", None
    except Exception as e:  # pylint: disable=broad-except
        return "raised", "%s: %s" % (type(e).__name__, str(e)[:120])


def in_child(fn):
    """Run fn in a forked child; returns 'died', 'ok' or 'raised'."""
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            code = 0 if attempt(fn)[0] == "ok" else 7
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        raise HarnessError("child killed by signal %d" % os.WTERMSIG(status))
    return {0: "ok", 7: "raised", 9: "died", 3: "broken"}[os.WEXITSTATUS(status)]


class Bench:
    """One operation that can be repeated from the same starting point."""

    MOST = 24    # fault points tried of those there are

    def __init__(self, ctx, name, run, target, expect):
        self.ctx, self.name, self.run, self.target, self.expect = ctx, name, run, target, expect
        self.keep = ctx.path("pristine")
        shutil.rmtree(self.keep, ignore_errors=True)
        if os.path.isdir(target):
            shutil.copytree(target, self.keep)
        self.final = {}

    def reset(self):
        shutil.rmtree(self.target, ignore_errors=True)
        if os.path.isdir(self.keep):
            shutil.copytree(self.keep, self.target)

    def fault_at(self, k, action, reads=False):
        state = {"n": 0, "hit": None}

        def fault(rec):
            if reads and rec["op"] not in ("read", "list"):
                return
            state["n"] += 1
            if state["n"] == k:
                state["hit"] = rec
                action(rec)
        FS.fault_reads = reads
        FS.fault = fault
        return state

    def clear(self):
        FS.fault, FS.fault_reads = None, False

    def trial(self, mode, k):
        ctx = self.ctx
        self.reset()
        hit = None
        if mode in ("error", "read-error"):
            num = ctx.rng.choice(ERRS if mode == "error" else READ_ERRS)

            def action(rec):
                # "no such directory" would be a true answer to a listing, not a failure of it
                n = errno.EIO if rec["op"] == "list" and num in (errno.ENOENT, errno.ENOTDIR) else num
                raise OSError(n, os.strerror(n), rec["path"])
            st = self.fault_at(k, action, mode == "read-error")
            try:
                res, why = attempt(self.run)
            finally:
                self.clear()
            hit = st["hit"]
            if hit is None:
                ctx.count("fault point not reached")
                return
        elif mode in ("death", "torn"):
            frac = ctx.rng.random()

            def action(rec):
                if mode == "torn" and rec["op"] == "write":
                    data = self.final.get(rec["path"], b"")
                    fd = os.open(rec["path"], os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
                    os.write(fd, data[:int(frac * len(data))])
                os._exit(9)
            self.fault_at(k, action)
            try:
                res, why = in_child(self.run), "event %d" % k
            finally:
                self.clear()
            if res == "broken":
                raise HarnessError("child failed")
            if res != "died":
                ctx.count("fault point not reached")
        else:
            limit = k

            def limited():
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
                self.run()
            res, why = in_child(limited), "limit %d" % limit
        ctx.count("trials " + mode)
        ctx.count("outcome %s %s" % (mode, res))
        ctx.count("faults in " + self.name)
        what = "%s %s@%s (%s) %s" % (self.name, mode, k, why, hit and {a: b for a, b in hit.items()})
        self.expect(res, what)

    def campaign(self):
        ctx, rng = self.ctx, ctx_rng(self.ctx)
        self.reset()
        FS.start(reads=True)
        try:
            self.ctx.call(self.name, self.run)
        finally:
            ev = FS.stop()
        for p, b in read_tree(self.target).items():
            self.final[os.path.join(self.target, p)] = b
        muts = [e for e in ev if e["op"] not in ("read", "list")]
        reads = [e for e in ev if e["op"] in ("read", "list") and e["path"].startswith(ctx.dir)]
        self.events = muts
        self.expect("ok", self.name + " undisturbed")

        def points(n, most):
            ks = list(range(1, n + 1))
            return ks if n <= most or ctx.tier != "quick" and n <= 200 else sorted(rng.sample(ks, most))
        for k in points(len(muts), self.MOST):
            self.trial("error", k)
            self.trial("death", k)
            if muts[k - 1]["op"] == "write":
                self.trial("torn", k)
        for k in points(len(reads), 8):
            self.trial("read-error", k)
        sizes = sorted({len(b) for b in self.final.values()} | {0})
        for n in rng.sample(sizes, min(len(sizes), 3)):
            self.trial("size-limit", max(0, n - 1))
            self.trial("size-limit", rng.randrange(n + 1))
        ctx.count("operations enumerated")
        ctx.note(self.name, len(muts))
        return muts


def ctx_rng(ctx):
    return ctx.rng


def verdict(ctx, d, what):
    passed, _ = ctx.call("validate after " + what.split(" ")[1], lib.validate, d)
    return passed


def is_complete(s, d, n):
    """Exactly the object with the n versions of the model?"""
    if not os.path.isfile(os.path.join(d, "inventory.json")) or oracle.check_object(d):
        return False
    with open(os.path.join(d, "inventory.json"), encoding="utf-8") as fh:
        inv = json.load(fh)
    if inv["head"] != "v%d" % n or inv["id"] != s.id:
        return False
    return all(oracle.reconstruct(d, "v%d" % (i + 1), inv) == s.states[i] for i in range(n))


def watch_write(ctx, s, st, old_n):
    """Campaign on a create, build or update step."""
    d = s.dir
    before = snapshot(d) if old_n else {}
    old_root = None
    if old_n:
        with open(os.path.join(d, "inventory.json"), "rb") as fh:
            old_root = fh.read()

    def expect(res, what):
        if res == "ok":
            ctx.check(is_complete(s, d, st.n), "success reported though the object is not the complete new one", "%s: %s", what, os.path.isdir(d) and oracle.check_object(d)[:2])
            return
        now = snapshot(d) if os.path.isdir(d) else {}
        if old_n:
            lost = {k: v for k, v in before.items() if k.split("/")[0] in ["v%d" % (i + 1) for i in range(old_n)] and now.get(k) != v}
            ctx.check(not lost, "earlier version damaged by failed update", "%s: %s", what, sorted(lost)[:3])
            with open(os.path.join(d, "v%d" % old_n, "inventory.json"), encoding="utf-8") as fh:
                inv = json.load(fh)
            for i in range(old_n):
                ctx.check(oracle.reconstruct(d, "v%d" % (i + 1), inv) == s.states[i], "earlier version not recoverable after failed update", "%s v%d", what, i + 1)
            root = None
            if os.path.isfile(os.path.join(d, "inventory.json")):
                with open(os.path.join(d, "inventory.json"), "rb") as fh:
                    root = fh.read()
            if root != old_root:
                vi = os.path.join(d, "v%d" % st.n, "inventory.json")
                ctx.check(os.path.isfile(vi), "root inventory replaced before the version inventory was written", what)
                try:
                    with open(vi, encoding="utf-8") as fh:
                        got = oracle.reconstruct(d, "v%d" % st.n, json.load(fh))
                except (ValueError, KeyError, OSError):
                    got = None
                ctx.check(got == s.states[st.n - 1], "root inventory replaced before the new version was complete", what)
                ctx.count("states with root inventory replaced")
            if now == before:
                ctx.count("left exactly old")
                return
        elif not now:
            ctx.count("left nothing")
            return
        if is_complete(s, d, st.n):
            ctx.count("left exactly new")
            return
        ctx.check(not verdict(ctx, d, what), "incomplete object passes validation", "%s: %s", what, snap_diff(before, now))
        ctx.count("left rejected by validation")
    name = st.kind + ("+digest" if old_n and s.algs[-1] != s.algs[-2] else "")
    b = Bench(ctx, name, st.run, d, expect)
    muts = b.campaign()
    if old_n:
        # Order of the undisturbed run: root inventory after everything of the new version
        first_root = next((i for i, e in enumerate(muts) if os.path.join(d, "inventory.json") in (e["path"], e.get("path2"))), None)
        last_new = max([i for i, e in enumerate(muts) if (e.get("path2") or e["path"]).startswith(os.path.join(d, "v%d" % st.n) + "/")], default=-1)
        ctx.check(first_root is not None and first_root > last_new, "root inventory replaced before the new version was complete", "%s events %s", st.kind, [(e["op"], e["path"][len(d):]) for e in muts][:30])
    b.reset()
    ctx.call(st.kind, st.run)


def watch_extract(ctx, s):
    rng = ctx.rng
    k = rng.randrange(len(s.states))
    want = s.states[k]
    dst = ctx.path("out")
    before = snapshot(s.dir)
    single = rng.random() < 0.3 and want
    lp = rng.choice(sorted(want)) if single else None
    expected = {os.path.basename(lp): want[lp]} if single else want

    def expect(res, what):
        ctx.check(snapshot(s.dir) == before, "failed extraction changed the object", what)
        if res == "ok":
            got = read_tree(dst) if os.path.isdir(dst) else None
            ctx.check(got == expected, "success reported though the extraction is not complete", "%s: %s", what, got is not None and sorted(set(expected) ^ set(got))[:3])
    if single:
        run = lambda: lib.ocfl.Object().extract_file(s.dir, "v%d" % (k + 1), dst, lp)  # noqa: E731
    else:
        run = lambda: lib.ocfl.Object().extract(s.dir, "v%d" % (k + 1), dst)  # noqa: E731
    shutil.rmtree(dst, ignore_errors=True)
    Bench(ctx, "extract_file" if single else "extract", run, dst, expect).campaign()


def case(ctx):
    rng = ctx.rng
    s = Session(ctx, odd=0.15, max_v=4 if rng.random() < 0.9 else 11, big=rng.random() < 0.1)
    old = 0
    watched = 0
    steps = []
    for st in s.steps():
        steps.append(st.kind)
        ctx.log("%s %s" % (st.kind, st.opts))
        last = st.n >= s.nv
        if st.new_version and st.n > old and (last or rng.random() < 0.15) and (old or rng.random() < 0.6):
            watch_write(ctx, s, st, old)
            watched += 1
        else:
            ctx.call(st.kind, st.run)
        old = st.n
    if not watched or rng.random() < 0.3:
        watch_extract(ctx, s)
