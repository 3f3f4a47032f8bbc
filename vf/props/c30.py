"""C30: an operation gives back what it took, and reads no more than it needs."""
import builtins
import errno
import gc
import importlib
import io
import locale
import logging
import os
import random
import shutil
import signal
import sys
import tempfile
import threading
import tracemalloc
import warnings
from collections import Counter

import fsspec
from fsspec.asyn import get_loop
from fsspec.implementations.local import LocalFileOpener
from fsspec.implementations.memory import MemoryFileSystem

from vf import foreign, gen, lib, script
from vf.common import HarnessError, Skip, Violation
from vf.monitors import FS, write_tree

ID = "C30"
LEVEL = "exploration"
QUICK, THOROUGH = 1800, 60000
MIN_DISTINCT = 300
CASE_LIMIT = 150
RULE = ("Every file that library code opens, by open() or through fsspec, is kept referenced by the monitor, so that only the library can close it, and must be closed when the operation returns, raises, or is refused. "
        "(a) Programs of library calls (create, update, build, edit, extract, bag, validate, roots, zip) with and without one I/O error at an open, listing, read, write or close; also descriptors, threads, temporary files, working directory, "
        "umask, environment, signal handlers, warning filters, logging, locale and limits of the process before and after. (b) The cases of other properties (hostile and damaged objects and roots, layouts, sources) under the handle monitor. "
        "(c) Files opened and directories listed are counted: validation without digests and everything that needs only inventories opens no content; validation opens each content file at most once for each digest recorded; "
        "extraction and update open only the content they need; other files and directories a constant number of times each. (d) Peak memory of each operation on content of 16-24 MiB stays below 6 MiB. (e) Lines of library code run for n and 2n files or objects: at most 2.6 times as many. "
        "Distinct by stream, operation, outcome and fault.")
ASSUMPTIONS = ["Archives opened through fsspec are released by garbage collection, which is run before their descriptors are counted", "Libraries beneath (bagit, fsspec) are not checked for what they open themselves, except through the count of descriptors",
               "Memory is what Python allocates (tracemalloc)"]
PKG = lib.WANT + "/ocfl/"
OWN = os.path.dirname(os.path.abspath(__file__))
MIB = 1 << 20
LIMIT = 6 * MIB
OTHERS = ["c01", "c02", "c03", "c05", "c07", "c08", "c10", "c11", "c11", "c11", "c12", "c13", "c14", "c14", "c15", "c15", "c16", "c17", "c18", "c21", "c22", "c23", "c24", "c25", "c26", "c06", "c09", "c19"]


class Faulty:
    """The file beneath an opened file: the n-th read, write or close of all raises."""

    def __init__(self, f, plan):
        self.__dict__.update(_f=f, _plan=plan)

    def __getattr__(self, name):
        a = getattr(self._f, name)
        if name in ("read", "readinto", "read1", "readline", "write", "seek", "flush"):
            def call(*args, **kw):
                self._plan.step(name)
                return a(*args, **kw)
            return call
        return a

    def close(self):
        self._f.close()          # the descriptor is released even if close reports an error
        self._plan.step("close")

    def __iter__(self):
        return iter(self._f)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()


class Plan:
    """An I/O error at the n-th of the operations on open files; n None: only count."""

    def __init__(self, n=None, err=errno.EIO):
        self.n, self.err, self.seen, self.hit = n, err, 0, None

    def step(self, what):
        self.seen += 1
        if self.seen == self.n:
            self.hit = what
            raise OSError(self.err, os.strerror(self.err))


class Handles:
    """Keeps every file opened by library code alive, so that nobody but the library closes it."""

    def __init__(self):
        self.held, self.on, self.plan, self.total = [], False, None, 0
        self.only = None        # the plan is for this file only

    def install(self):
        real_open, real_fs = builtins.open, fsspec.AbstractFileSystem.open
        me = self

        def opener():
            f = sys._getframe(2)
            while f is not None:
                name = f.f_code.co_filename
                if "/fsspec/" not in name and not name.startswith(OWN) and name != "<frozen codecs>":
                    return "%s:%d" % (name, f.f_lineno) if name.startswith(PKG) else None
                f = f.f_back
            return None

        def watched_open(file, mode="r", *args, **kw):
            fh = real_open(file, mode, *args, **kw)
            if me.on:
                who = opener()
                if who and not isinstance(file, int):
                    me.total += 1
                    me.held.append((fh, who, str(file), mode))
            return fh

        def watched_fs_open(fs, path, mode="rb", *args, **kw):
            fh = real_fs(fs, path, mode, *args, **kw)
            if me.on and not isinstance(fs, MemoryFileSystem):      # files in memory never count as closed
                who = opener()
                if who:
                    me.total += 1
                    me.held.append((fh, who, str(path), mode))
                    if me.plan is not None and isinstance(fh, LocalFileOpener) and me.only in (None, os.path.abspath(fh.path)):
                        fh.f = Faulty(fh.f, me.plan)
            return fh
        builtins.open = watched_open
        fsspec.AbstractFileSystem.open = watched_fs_open

    def start(self, plan=None):
        self.held, self.on, self.plan = [], True, plan

    def stop(self):
        """Files that are still open, with who opened them."""
        self.on, self.plan = False, None
        held, self.held = self.held, []
        return [(who, path, mode) for fh, who, path, mode in held if not fh.closed and not path.endswith(".zip")]


HANDLES = Handles()
_READY = []


def ready():
    if not _READY:
        get_loop()         # the thread that fsspec keeps for asynchronous file systems
        HANDLES.install()
        _READY.append(True)


def process_state():
    old = os.umask(0o22)
    os.umask(old)
    return {"working directory": os.getcwd(), "umask": old, "environment": dict(os.environ), 
            "logging": (logging.root.level, logging.root.manager.disable), "warning filters": list(warnings.filters), "sys.path": list(sys.path),
            "recursion limit": sys.getrecursionlimit(), "locale": locale.setlocale(locale.LC_ALL), "signal handlers": [signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGPIPE, signal.SIGHUP)],
            "standard streams": [sys.stdin, sys.stdout, sys.stderr], "garbage collection": (gc.isenabled(), gc.get_threshold())}


def descriptors():
    out = {}
    for n in os.listdir("/proc/self/fd"):
        try:
            out[n] = os.readlink("/proc/self/fd/" + n)
        except OSError:
            pass
    return {k: v for k, v in out.items() if not v.startswith("/proc/")}


def watch(ctx, what, fn, plan=None, archive=False):
    """Run fn, which must leave nothing behind."""
    tmp = ctx.path("tmp")
    os.makedirs(tmp, exist_ok=True)
    keep, tempfile.tempdir = tempfile.tempdir, tmp
    if archive:
        gc.collect()
    state, fds, threads = process_state(), descriptors(), threading.enumerate()
    HANDLES.start(plan)
    try:
        r = fn()
    finally:
        FS.fault, FS.fault_reads = None, False
        left = HANDLES.stop()
        tempfile.tempdir = keep
    ctx.stats["calls"] += 1
    ctx.check(not left, "file left open by " + what, "%s", [(w.replace(lib.WANT, ""), p.replace(ctx.dir, ""), m) for w, p, m in left[:4]])
    if archive:
        r = r if isinstance(r, (list, tuple, type(None), bool)) else repr(r)
        gc.collect()
    now = descriptors()
    more = [v for k, v in now.items() if k not in fds or fds[k] != v]
    if len(now) > len(fds):
        gc.collect()
        now = descriptors()
    ctx.check(len(now) <= len(fds), "descriptors left open by " + what, "%s", more[:5])
    new = [t.name for t in threading.enumerate() if t not in threads]
    ctx.check(not new, "threads left by " + what, "%s", new)
    after = process_state()
    for k, v in state.items():
        ctx.check(after[k] == v, "%s changed by %s" % (k, what), "%r to %r", str(v)[:200], str(after[k])[:200])
    ctx.check(not os.listdir(tmp), "temporary files left by " + what, "%s", os.listdir(tmp)[:5])
    return r


# ---------------------------------------------------------------- programs, with and without a fault

def with_archives(rng, base, steps):
    """Steps that also read from archives: an object, or a source."""
    out = []
    for s in steps:
        out.append(s)
        if s["op"] == "validate" and rng.random() < 0.3:
            out.append({"op": "archive", "obj": s["obj"]})
    return out


def archive(step, base):
    """Validate the object as an archive, and extract from it."""
    z = os.path.join(base, "obj-%s" % step["obj"])
    shutil.make_archive(z, "zip", base if step.get("inner") else os.path.join(base, step["obj"]), step["obj"] if step.get("inner") else None)
    v = lib.Validator()
    return ["ok", v.validate_object("zip://" + z + ".zip")]


def faults(rng):
    """None, or (function that arms a fault, description)."""
    r = rng.random()
    err = rng.choice([errno.EIO, errno.EACCES, errno.ENOSPC, errno.EMFILE, errno.ENOENT, errno.EROFS])
    if r < 0.45:
        return None, None, "none"
    if r < 0.8:
        return Plan(rng.choice([1, 2, 3, 4, 5, 7, 9, 12, 15, 20, 30, 45]), err), None, "data"
    k = rng.choice([1, 2, 3, 5, 8, 12, 18, 25, 35])
    state = {"n": 0}

    def fault(rec):
        state["n"] += 1
        if state["n"] == k:
            raise OSError(err, os.strerror(err), rec["path"])
    return None, fault, "entry"


def programs(ctx):
    rng = ctx.rng
    base = ctx.path("p")
    os.makedirs(base)
    steps, _, _, _ = script.make(rng, base)
    steps = with_archives(rng, base, steps)
    faulty = rng.random() < 0.6
    for s in steps:
        plan, fault, kind = faults(rng) if faulty else (None, None, "none")
        what = s["op"] + (" of " + s["obj"] if s["op"] == "validate" else "")

        def go(s=s, fault=fault):
            if s["op"] == "archive":
                try:
                    return archive(s, base)
                except Exception as e:  # pylint: disable=broad-except
                    return ["raised", type(e).__name__]
            FS.fault, FS.fault_reads = fault, fault is not None
            return script.run(s, base)
        if s["op"] == "archive":
            plan, fault, kind = None, None, "none"
        out = watch(ctx, what, go, plan, s["op"] == "archive")
        if plan is not None and plan.hit is None:
            kind = "none"
        end = out[0] if out[0] == "ok" else out[1]
        ctx.sig.append((s["op"], kind, plan.hit if plan else None, end))
        ctx.count("%s %s" % (s["op"], "fault: " + (plan.hit if plan else "entry") if kind != "none" else "no fault"))
        ctx.count("outcome " + end)


# ---------------------------------------------------------------- cases of other properties

def others(ctx):
    rng = ctx.rng
    name = rng.choice(OTHERS)
    mod = importlib.import_module("vf.props." + name)
    state = process_state()
    cwd = os.getcwd()
    HANDLES.start()
    try:
        mod.case(ctx)
    except (Violation, Skip):
        ctx.count("cut short: " + name)         # what they decide is reported by their own checks
    finally:
        FS.fault, FS.fault_reads = None, False
        if FS.events is not None:
            FS.stop()
        left = HANDLES.stop()
        os.chdir(cwd)          # cases may end elsewhere, also in a directory that is gone
    ctx.nontrivial = True
    ctx.check(not left, "file left open in a case of " + name, "%s", [(w.replace(lib.WANT, ""), p.replace(ctx.dir, ""), m) for w, p, m in left[:4]])
    after = process_state()
    for k in ("umask", "warning filters", "recursion limit", "signal handlers"):
        v = state[k]
        ctx.check(after[k] == v, "%s changed in a case of %s" % (k, name), "%r to %r", str(v)[:200], str(after[k])[:200])
    ctx.count("case of " + name)


# ---------------------------------------------------------------- what is read

META = 8        # an inventory, sidecar, declaration or directory is looked at no more often than this in one operation


def counted(ctx, what, fn, *args, **kw):
    """Result, counts of reads per path, counts of listings per path."""
    FS.start(reads=True)
    try:
        r = watch(ctx, what, lambda: ctx.call(what, fn, *args, **kw))
    finally:
        ev = FS.stop()
    mine = [e for e in ev if e["path"] and e["path"].startswith(ctx.dir + "/") and e["path"] != ctx.path("tmp")]
    ctx.count("file accesses seen", len(mine))
    return r, Counter(e["path"] for e in mine if e["op"] == "read"), Counter(e["path"] for e in mine if e["op"] == "list"), mine


def often(ctx, what, reads, lists, content, most=META):
    for p, n in reads.items():
        if p not in content:
            ctx.check(n <= most, "a file is read again and again by " + what, "%s: %d times", p.replace(ctx.dir, ""), n)
    for p, n in lists.items():
        ctx.check(n <= most, "a directory is listed again and again by " + what, "%s: %d times", p.replace(ctx.dir, ""), n)


def no_content(ctx, what, reads, content):
    bad = [p for p in reads if p in content]
    ctx.check(not bad, "content is read by " + what, "%s", [b.replace(ctx.dir, "") for b in bad[:4]])


def written(ctx, d, rng):
    """An object below d; returns the Foreign description."""
    o = foreign.make(rng, ctx.tier, nv=rng.choice([1, 2, 3, 4, 6, 9, 14]), simple_paths=rng.random() < 0.7, pads=[2, 3, 4, 5])
    foreign.write(o, d)
    return o


def content_files(o, d):
    """{absolute path: number of digests that are recorded for it in inventories}."""
    out = {}
    invs = list(o.invs.values()) if isinstance(o.invs, dict) else list(o.invs)
    for inv in invs:
        alg = inv["digestAlgorithm"]
        for ps in inv["manifest"].values():
            for p in ps:
                out.setdefault(os.path.normpath(os.path.join(d, p)), set()).add(alg)
        for a, block in inv.get("fixity", {}).items():
            for ps in block.values():
                for p in ps:
                    out.setdefault(os.path.normpath(os.path.join(d, p)), set()).add(a)
    return out


def reading(ctx):
    rng = ctx.rng
    d = ctx.path("o")
    o = written(ctx, d, rng)
    content = content_files(o, d)
    nv = len(o.vdirs)
    ctx.sig.append(("reading", nv, len(content), len(o.files)))
    # validation
    for full in (False, True):
        what = "validation" if full else "validation without digests"
        (passed, _), reads, lists, ev = counted(ctx, what, lib.ocfl.Object().validate, objdir=d, check_digests=full)
        if not passed:
            raise Skip()
        often(ctx, what, reads, lists, content)
        if not full:
            no_content(ctx, what, reads, content)
        for p, n in reads.items():
            if p in content:
                ctx.check(n <= len(content[p]), "validation reads content more often than digests are recorded", "%s: %d times for %s", p.replace(ctx.dir, ""), n, sorted(content[p]))
        if full:
            missed = [p for p in content if p not in reads]
            ctx.check(not missed, "validation does not read content", "%s", [p.replace(ctx.dir, "") for p in missed[:4]])
        out = [e["path"] for e in ev if not (e["path"] + "/").startswith(d + "/")]
        ctx.check(not out, "validation looks outside the object", "%s", out[:4])
    # descriptions
    for what, fn in (("identification", lambda: lib.ocfl.Object(path=d).id_from_inventory()), ("description", lambda: str(lib.ocfl.Object().tree(d))),
                     ("reading of the inventory", lambda: lib.ocfl.Object(path=d).parse_inventory()), ("validation of the inventory", lambda: lib.ocfl.Object().validate_inventory(os.path.join(d, "inventory.json")))):
        if rng.random() < 0.6:
            _, reads, lists, _ = counted(ctx, what, fn)
            no_content(ctx, what, reads, content)
            often(ctx, what, reads, lists, content)
    # extraction
    k = rng.randrange(nv)
    state = o.states[k]
    inv = o.invs[max(o.invs)] if isinstance(o.invs, dict) else o.invs[-1]
    uses = Counter()
    vstate = inv["versions"][o.vdirs[k]]["state"]
    where = {dg.lower(): [os.path.normpath(os.path.join(d, p)) for p in ps] for dg, ps in inv["manifest"].items()}
    of_path = {}
    for dg, lps in vstate.items():
        for p in where[dg.lower()]:
            uses[p] += len(lps)
        for lp in lps:
            of_path[lp] = where[dg.lower()]
    _, reads, lists, _ = counted(ctx, "extraction", lib.ocfl.Object().extract, d, o.vdirs[k], ctx.path("x"))
    often(ctx, "extraction", reads, lists, content)
    for p, n in reads.items():
        if p in content:
            ctx.check(n <= 2 * uses[p], "extraction reads content it does not need", "%s: %d times, used %d times in %s", p.replace(ctx.dir, ""), n, uses[p], o.vdirs[k])
    if state:
        lp = rng.choice(sorted(state))
        _, reads, lists, _ = counted(ctx, "extraction of one file", lib.ocfl.Object().extract_file, d, o.vdirs[k], ctx.path("x1"), lp)
        often(ctx, "extraction of one file", reads, lists, content)
        bad = [p for p, n in reads.items() if p in content and (p not in of_path[lp] or n > 2)]
        ctx.check(not bad, "extraction of one file reads other content", "%s for %s", [b.replace(ctx.dir, "") for b in bad[:4]], lp)
    # update
    if rng.random() < 0.7 and o.vdirs[-1] not in ("v09", "v099", "v0999"):
        src = ctx.path("src")
        t = gen.tree(rng, gen.Pool(rng, False), n=rng.choice([1, 3, 8]), odd=0.1)
        write_tree(src, t)
        ob = lib.ocfl.Object(digest_algorithm=o.algs[-1], spec_version="1.1")
        _, reads, lists, _ = counted(ctx, "update", ob.add_version_with_content, objdir=d, srcdir=src, metadata=lib.vmeta(gen.meta(rng)))
        old = {p: n for p, n in reads.items() if p in content}
        ctx.check(not old, "update reads content of earlier versions", "%s", [p.replace(ctx.dir, "") for p in list(old)[:4]])
        mine = {os.path.join(src, p) for p in t}
        for p in mine:
            ctx.check(reads[os.path.normpath(p)] <= META, "update reads a source file again and again", "%s", p)
        often(ctx, "update", reads, lists, set(content) | mine)


def roots(ctx):
    rng = ctx.rng
    r = ctx.path("root")
    lib.ocfl.StorageRoot(root=r, layout_name=rng.choice(["0003-hash-and-id-n-tuple-storage-layout", "nnnn-flat-quoted-storage-layout"])).initialize()
    content = {}
    n = rng.choice([1, 2, 4, 7])
    k = 0
    for i in range(n):
        d = ctx.path("o%d" % i)
        o = foreign.make(rng, ctx.tier, nv=rng.choice([1, 2, 3]), simple_paths=True, ident="urn:x:%d" % i)
        foreign.write(o, d)
        c = content_files(o, d)
        try:
            (_, rel), reads, lists, _ = counted(ctx, "addition", lib.ocfl.StorageRoot(root=r).add, d)
        except Violation as e:
            if "raised" in e.mech:
                raise Skip()       # whether it may be refused is decided elsewhere
            raise
        often(ctx, "addition", reads, lists, c)
        for p, m in reads.items():
            ctx.check(p not in content, "addition reads content of other objects", "%s", p.replace(ctx.dir, ""))
            if p in c:
                ctx.check(m <= len(c[p]) + 1, "addition reads content again and again", "%s: %d times", p.replace(ctx.dir, ""), m)
        shutil.rmtree(d)
        for p, algs in c.items():
            content[os.path.normpath(os.path.join(r, rel) + p[len(d):])] = algs
        k += 1
    ctx.sig.append(("roots", k, len(content)))
    found, reads, lists, _ = counted(ctx, "listing", lambda: list(lib.ocfl.StorageRoot(root=r).list_objects()))
    ctx.check(len(found) == k, "listing incomplete", "%d of %d", len(found), k)
    no_content(ctx, "listing", reads, content)
    often(ctx, "listing", reads, lists, content)
    # abandoned half-way

    def part():
        g = lib.ocfl.StorageRoot(root=r).list_objects()
        for _ in range(rng.randrange(k + 1)):
            next(g)
        g.close()
        return True
    watch(ctx, "abandoned listing", part)
    for kw in ({}, {"check_digests": False}, {"validate_objects": False}):
        what = "validation of the root" + ("".join(" %s=%s" % i for i in kw.items()))
        ok, reads, lists, ev = counted(ctx, what, lambda kw=kw: lib.ocfl.StorageRoot(root=r).validate(**kw))
        if not ok:
            raise Skip()
        often(ctx, what, reads, lists, content)
        if kw:
            no_content(ctx, what, reads, content)
        for p, m in reads.items():
            if p in content:
                ctx.check(m <= len(content[p]), "validation of the root reads content more often than digests are recorded", "%s: %d times", p.replace(ctx.dir, ""), m)
        out = [e["path"] for e in ev if not (e["path"] + "/").startswith(r + "/")]
        ctx.check(not out, "validation of a root looks outside it", "%s", out[:4])


# ---------------------------------------------------------------- memory

def lean(ctx, what, fn, *args, archived=False, **kw):
    tracemalloc.start()
    try:
        tracemalloc.reset_peak()
        before = tracemalloc.get_traced_memory()[0]
        r = watch(ctx, what, lambda: ctx.call(what, fn, *args, **kw), archive=archived)
        peak = tracemalloc.get_traced_memory()[1] - before
    finally:
        tracemalloc.stop()
    ctx.count("peak memory of %s below %d KiB" % (what, 1 << (max(peak, 1024) // 1024).bit_length()))
    ctx.check(peak < LIMIT, "memory grows with content in " + what, "%d KiB for files of %d KiB", peak // 1024, ctx.big // 1024)
    return r


def memory(ctx):
    rng = ctx.rng
    ctx.big = rng.choice([16, 20, 24]) * MIB + rng.randrange(5000)
    block = rng.randbytes(65536)

    def large(path, first=b""):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with io.open(path, "wb") as fh:
            fh.write(first)
            left = ctx.big - len(first)
            while left > 0:
                fh.write(block[:left])
                left -= len(block)
    src = ctx.path("src")
    large(src + "/a/big", b"1")
    large(src + "/copy", b"1")
    write_tree(src, {"small": b"x"})
    d = ctx.path("o")
    alg = rng.choice(["sha512", "sha256"])
    fix = rng.choice([None, ["md5"], ["sha1", "blake2b-512"]])
    kw = {"fixity": fix} if fix else {}
    srcdir, arch = src, False
    if rng.random() < 0.3:
        shutil.make_archive(ctx.path("s"), "zip", src)
        srcdir, arch = "zip://" + ctx.path("s.zip"), True
    ctx.sig.append(("memory", alg, str(fix), arch))
    lean(ctx, "creation", lib.ocfl.Object(identifier="urn:big", digest_algorithm=alg, **kw).create, srcdir=srcdir, objdir=d, metadata=lib.vmeta(gen.meta(rng)), archived=arch)
    src2 = ctx.path("src2")
    large(src2 + "/b/big", b"2")
    if rng.random() < 0.5:
        large(src2 + "/same", b"1")
    lean(ctx, "update", lib.ocfl.Object(digest_algorithm=alg).add_version_with_content, objdir=d, srcdir=src2, metadata=lib.vmeta(gen.meta(rng)))
    passed, _ = lean(ctx, "validation", lib.ocfl.Object().validate, objdir=d)
    ctx.check(passed, "object with large files does not validate", "")
    if rng.random() < 0.3:
        shutil.make_archive(ctx.path("z"), "zip", d)
        lean(ctx, "validation of an archive", lambda: lib.Validator().validate_object("zip://" + ctx.path("z.zip")), archived=True)
        os.remove(ctx.path("z.zip"))
    lean(ctx, "extraction", lib.ocfl.Object().extract, d, rng.choice(["v1", "v2", "head"]), ctx.path("x"))
    lean(ctx, "extraction of one file", lib.ocfl.Object().extract_file, d, "v1", ctx.path("x1"), "a/big")
    shutil.rmtree(ctx.path("x"))
    if rng.random() < 0.4:
        from ocfl.bagger import bag_as_source, bag_extracted_version
        m = lib.ocfl.Object().extract(d, "v1", ctx.path("bag"))
        lean(ctx, "bagging", bag_extracted_version, ctx.path("bag"), m)
        lean(ctx, "reading of a bag", bag_as_source, ctx.path("bag"), lib.VersionMetadata())
    r = ctx.path("root")
    lib.ocfl.StorageRoot(root=r, layout_name="nnnn-flat-quoted-storage-layout").initialize()
    lean(ctx, "addition", lib.ocfl.StorageRoot(root=r).add, d)
    lean(ctx, "validation of a root", lib.ocfl.StorageRoot(root=r).validate)


# ---------------------------------------------------------------- work

class Work:
    """Counts the lines and jumps of library code that run (sys.monitoring, a tool of its own)."""
    TOOL = 4

    def __init__(self):
        self.n = 0
        m = sys.monitoring
        m.use_tool_id(self.TOOL, "vf-work")
        m.register_callback(self.TOOL, m.events.LINE, self.step)
        m.register_callback(self.TOOL, m.events.JUMP, self.step)       # rounds of a comprehension are jumps, not lines

    def step(self, code, *_):
        if not code.co_filename.startswith(PKG):
            return sys.monitoring.DISABLE
        self.n += 1
        return None

    def of(self, fn, *args, **kw):
        self.n = 0
        m = sys.monitoring
        m.set_events(self.TOOL, m.events.LINE | m.events.JUMP)
        try:
            r = fn(*args, **kw)
        finally:
            m.set_events(self.TOOL, 0)
        return r, self.n


_WORK = []


def work(ctx):
    """Lines of code run for n and for 2n files (or objects): with twice as many things no more than about twice the work."""
    rng = ctx.rng
    if not _WORK:
        _WORK.append(Work())
    w = _WORK[0]
    n = rng.choice([120, 160, 220])
    shape = [(rng.choice([1, 3, 9]), rng.choice([1, 4])) for _ in range(2)]
    alg = rng.choice(["sha512", "sha256"])
    fix = rng.choice([None, ["md5"]])
    seen = {}
    again = rng.random() < 0.5
    every = rng.choice([1, 2])
    for k in (1, 2):
        src = ctx.path("s%d" % k)
        write_tree(src, {"d%d/%s%d" % (i % shape[0][0], "e/" * (i % shape[0][1]), i): b"%d" % (i // every) for i in range(n * k)})
        d = ctx.path("o%d" % k)
        kw = {"fixity": fix} if fix else {}
        lib.ocfl.Object(identifier="urn:many", digest_algorithm=alg, **kw).create(srcdir=src, objdir=d, metadata=lib.vmeta(gen.meta(rng)))
        if again:
            write_tree(src, {"new%d" % i: b"n%d" % i for i in range(n * k)})
            lib.ocfl.Object(digest_algorithm=alg).add_version_with_content(objdir=d, srcdir=src, metadata=lib.vmeta(gen.meta(rng)))
        root = ctx.path("r%d" % k)
        lib.ocfl.StorageRoot(root=root, layout_name="nnnn-flat-quoted-storage-layout").initialize()
        for name, fn in [("validation", lambda: lib.Validator().validate_object(d)), ("validation without digests", lambda: lib.Validator(check_digests=False).validate_object(d)),
                         ("extraction", lambda: lib.ocfl.Object().extract(d, "head", ctx.path("x%d" % k))), ("addition", lambda: lib.ocfl.StorageRoot(root=root).add(d)),
                         ("identification", lambda: lib.ocfl.Object(path=d).id_from_inventory()), ("validation of a root", lambda: lib.ocfl.StorageRoot(root=root).validate()),
                         ("listing", lambda: list(lib.ocfl.StorageRoot(root=root).list_objects()))]:
            (_, lines) = ctx.call(name, w.of, fn)
            seen.setdefault(name, []).append(lines)
        many = ctx.path("m%d" % k)
        lib.ocfl.StorageRoot(root=many, layout_name="nnnn-flat-quoted-storage-layout").initialize()
        for i in range(12 * k):
            o = foreign.make(random.Random(1), "quick", nv=1, plain=True, ident="i%d" % i)
            foreign.write(o, os.path.join(many, "i%d" % i))
        for name, fn in [("validation of many objects", lambda: lib.ocfl.StorageRoot(root=many).validate()), ("listing of many objects", lambda: list(lib.ocfl.StorageRoot(root=many).list_objects()))]:
            (_, lines) = ctx.call(name, w.of, fn)
            seen.setdefault(name, []).append(lines)
    for name, (one, two) in seen.items():
        ctx.count("work of %s: x%.1f for twice as many" % (name, two / max(one, 1)))
        ctx.check(two <= 2.6 * one + 500, "work of %s grows faster than what there is" % name, "%d lines for %d files, %d for %d", one, n, two, 2 * n)
    ctx.sig.append(("work", n, again, str(fix), alg, str(shape)))


def case(ctx):
    ready()
    if gc.isenabled() is False:
        raise HarnessError("garbage collection is off")
    r = ctx.rng.random()
    if r < 0.35:
        ctx.count("stream: programs")
        programs(ctx)
    elif r < 0.68:
        ctx.count("stream: cases of other properties")
        others(ctx)
    elif r < 0.88:
        ctx.count("stream: reads of objects")
        reading(ctx)
    elif r < 0.965:
        ctx.count("stream: reads of roots")
        roots(ctx)
    elif r < 0.98:
        ctx.count("stream: work")
        work(ctx)
    else:
        ctx.count("stream: memory")
        memory(ctx)
