"""C31: what cannot be read is never reported as sound or complete, and an interrupt is never swallowed."""
import errno
import io
import json
import os
import random
import shutil
import zipfile

from ocfl.digest import file_digest
from ocfl.fsw import fsw_copydir, fsw_copyfile, fsw_files_identical, fsw_openfs, fsw_readtext, fsw_walk_files
from ocfl.object_utils import find_path_type

from vf import foreign, gen, lib, oracle, s3
from vf.common import Skip
from vf.monitors import FS, read_tree, snapshot, write_tree
from vf.props import c08, c12, c15, c30

ID = "C31"
LEVEL = "exploration"
QUICK, THOROUGH = 2200, 60000
MIN_DISTINCT = 300
RULE = ("Objects and roots from independent writers, valid and damaged, and source directories; in each operation on them one path that the operation reads (seen in a first, undisturbed run) can no longer be opened, listed, or read beyond n bytes, "
        "with six kinds of error, or is out of reach on S3 (403), or the archive is cut off, altered or was written with other headers. Validation of objects (all interfaces, with and without digests, inventory only), of roots: never valid. "
        "Listing: complete or an error. Extraction, copying, digests, comparison, creation, update, addition, bags: exact result or an exception. find_path_type and id_from_inventory: the right answer or the documented failure value. "
        "An interrupt or exit raised at any event of any of these comes out. Distinct by operation, fault, role of path and outcome.")
ASSUMPTIONS = ["A path that fails once fails each time it is used in the operation", "Errors are those the operating system, zipfile and an S3 server report; content that reads differently without error is the subject of C08"]
ERRS = [errno.EIO, errno.EACCES, errno.EPERM, errno.ESTALE, errno.EMFILE, errno.EINVAL]        # ENOENT is an answer: there is nothing


class Stop(KeyboardInterrupt):
    """An interrupt by the user."""


class Leave(SystemExit):
    """An exit, as from a signal handler."""


class PathPlan(c30.Plan):
    """Reads on one file raise after n of them."""

    def __init__(self, path, n, exc):
        super().__init__()
        self.path, self.n, self.exc = path, n, exc

    def step(self, what):
        if what in ("read", "readinto", "read1", "readline"):
            self.seen += 1
            if self.seen > self.n:
                self.hit = what
                raise self.exc()


class Op:
    """Preparation, what the library does, and what came of it (only the second meets with trouble)."""

    def __init__(self, act, look=None, prepare=None):
        self.act, self.look, self.prepare = act, look, prepare

    def __call__(self, t=None):
        if self.prepare:
            self.prepare()
        if t is None:
            r = self.act()
        else:
            with t:
                r = self.act()
        return self.look(r) if self.look else r


class Trouble:
    """One path that fails from now on: opening and listing it, or reading it."""

    def __init__(self, ctx, ev, base):
        rng = ctx.rng
        self.op, self.path = ev["op"], ev["path"]
        kind = rng.random()
        if kind < 0.12:
            self.what, self.exc = "interrupt", Stop
        elif kind < 0.16:
            self.what, self.exc = "exit", Leave
        else:
            e = rng.choice(ERRS)
            self.what, self.exc = errno.errorcode[e], lambda: OSError(e, os.strerror(e), self.path)
        self.data = self.op == "read" and rng.random() < 0.4
        self.after = rng.choice([0, 0, 1, 1, 2, 3]) if self.data else 0
        self.hit = 0
        self.base = base

    def __str__(self):
        return "%s on %s of %s" % (self.what, "data (after %d reads)" % self.after if self.data else self.op, self.path.replace(self.base, ""))

    @property
    def stops(self):
        return self.what in ("interrupt", "exit")

    def __enter__(self):
        if self.data:
            c30.HANDLES.plan = self.plan = PathPlan(self.path, self.after, self.exc)
            c30.HANDLES.only = self.path
        else:
            def fault(rec):
                if rec["op"] == self.op and rec["path"] == self.path:
                    self.hit += 1
                    raise self.exc()
            FS.fault, FS.fault_reads = fault, True
        return self

    def __exit__(self, *a):
        FS.fault, FS.fault_reads = None, False
        if self.data:
            c30.HANDLES.plan = c30.HANDLES.only = None
            self.hit = self.plan.hit is not None


def role(path, base):
    """What a path is for, coarsely."""
    p = os.path.relpath(path, base)
    n = os.path.basename(p)
    if p == ".":
        return "top"
    if n.startswith("0="):
        return "declaration"
    if n == "inventory.json":
        return "inventory" + (" of version" if "/" in p else "")
    if n.startswith("inventory.json."):
        return "sidecar" + (" of version" if "/" in p else "")
    if "extensions" in p.split("/"):
        return "extensions"
    return "file or directory" + " below" * min(p.count("/"), 2)


class Record:
    """Events of an undisturbed run."""
    ev = ()

    def __enter__(self):
        FS.start(reads=True)

    def __exit__(self, *a):
        self.ev = FS.stop()


def seen(ctx, base, fn):
    """Events of an undisturbed run, below base; and its result."""
    if not isinstance(fn, Op):
        fn = Op(fn)
    rec = Record()
    r = outcome(lambda: fn(rec))
    ev = rec.ev
    out, have = [], set()
    for e in ev:
        k = (e["op"], e["path"])
        if e["op"] in ("read", "list") and e["path"] and (e["path"] + "/").startswith(base + "/") and k not in have:
            have.add(k)
            out.append(e)
    return out, r


def disturbed(ctx, what, t, fn):
    """('value', r) or ('raised', e); what interrupts must come out."""
    ctx.stats["calls"] += 1
    if not isinstance(fn, Op):
        fn = Op(fn)
    try:
        r = ("value", fn(t))
    except (Stop, Leave) as e:
        r = ("stopped", e)
    except Exception as e:  # pylint: disable=broad-except
        r = ("raised", e)
    if not t.hit:
        ctx.count("fault not reached: " + what)
        return None
    ctx.count("faults: %s, %s" % (what, "data" if t.data else t.op))
    ctx.count("end: %s %s" % (what, r[0] if r[0] != "raised" else type(r[1]).__name__))
    ctx.sig.append((what, t.what, t.op, t.data, role(t.path, t.base), r[0]))
    if t.stops:
        ctx.check(r[0] == "stopped", "%s swallowed by %s" % (t.what, what), "%s: %s %s", t, r[0], r[1])
    return r


# ---------------------------------------------------------------- objects

def validations(d, o, rng):
    """[(name, function -> verdict)]"""
    out = [("validation", lambda: lib.Validator().validate_object(d)),
           ("validation (Object)", lambda: lib.ocfl.Object().validate(objdir=d, log_warnings=rng.random() < 0.5, log_errors=rng.random() < 0.5)[0]),
           ("validation without digests", lambda: lib.Validator(check_digests=False).validate_object(d)),
           ("validation, open file system", lambda: lib.Validator(log_warnings=True).validate_object(fsw_openfs(d))),
           ("validation, lax digests", lambda: lib.ocfl.Object(lax_digests=True).validate(objdir=d)[0]),
           ("validation of inventory", lambda: lib.ocfl.Object().validate_inventory(os.path.join(d, "inventory.json"))[0]),
           ("validation of inventory, warnings", lambda: lib.ocfl.Object().validate_inventory(os.path.join(d, "inventory.json"), log_warnings=True)[0])]
    return out


def make_object(ctx, d, damaged):
    rng = ctx.rng
    o = foreign.make(rng, ctx.tier, pads=[2, 3, 4, 5], nv=rng.choice([1, 2, 2, 3, 5]), max_files=rng.choice([None, 4]))
    foreign.write(o, d)
    if damaged:
        b = c12.Damage(ctx, o, d)
        b.name = None
        m = rng.choice(c08.MUTS)
        if not (m in c08.NEEDS_CONTENT and not o.content) and m is not c08.m_version_inventory_byte:
            m(b)
    return o


def objects(ctx):
    rng = ctx.rng
    d = ctx.path("obj")
    damaged = rng.random() < 0.2
    o = make_object(ctx, d, damaged)
    for name, fn in rng.sample(validations(d, o, rng), 3):
        ev, verdict = seen(ctx, d, fn)
        if not damaged:
            ctx.check(verdict == ("value", True), "sound object is not valid: " + name, "%s %s", verdict, o.features)
        for e in rng.sample(ev, min(len(ev), 12)):
            t = Trouble(ctx, e, d)
            r = disturbed(ctx, name, t, fn)
            if r and r[0] == "value":
                ctx.check(r[1] is False, "what cannot be read is valid: " + name, "%s: %s (%s)", t, r[1], o.features)
    if not damaged:
        ctx.check(lib.ocfl.Object(path=d).id_from_inventory() == o.id, "identifier not read", "%s", o.features)
    ob = lambda: lib.ocfl.Object(path=d).id_from_inventory(failure_value=None)   # noqa: E731
    answers(ctx, "identification", d, ob, lambda v, right: v is None or v == right)
    kind = lambda: find_path_type(d)   # noqa: E731
    answers(ctx, "find_path_type", d, kind, lambda v, right: isinstance(v, str) and v not in ({"root", "object", "file"} - {right}))
    if damaged:
        return
    full = read_tree(d)
    vd = rng.choice(o.vdirs)
    want = lib_state(o, vd, full)

    def extract():
        dst = ctx.path("x%d" % rng.randrange(10 ** 9))
        lib.ocfl.Object().extract(d, vd, dst)
        return dst
    if want:
        answers(ctx, "extraction", d, Op(extract, read_tree), lambda v, right: v == want, most=8)
        one = rng.choice(sorted(want))

        def single():
            dst = ctx.path("f%d" % rng.randrange(10 ** 9))
            lib.ocfl.Object().extract_file(d, vd, dst, one)
            return os.path.join(dst, os.path.basename(one)) if os.path.isdir(dst) else dst
        answers(ctx, "extraction of one file", d, Op(single, content), lambda v, right: v == want[one], most=5)
    if rng.random() < 0.5:
        src = ctx.path("more")
        tree = gen.tree(rng, gen.Pool(rng, False), n=rng.choice([1, 3]), odd=0.1)
        write_tree(src, tree)
        before = full

        def prepare():
            shutil.rmtree(d)
            write_tree(d, before)
            for v in o.vdirs:
                os.makedirs(os.path.join(d, v), exist_ok=True)

        def update():
            lib.ocfl.Object(digest_algorithm=o.algs[-1], spec_version="1.1").add_version_with_content(objdir=d, srcdir=src, metadata=lib.vmeta(gen.meta(rng)))
        if o.vdirs[-1] not in ("v09", "v099", "v0999", "v9", "v99"):
            answers(ctx, "update", ctx.dir, Op(update, lambda _: complete(d, tree), prepare), lambda v, right: v is True, most=8)


def content(path):
    with open(path, "rb") as fh:
        return fh.read()


def lib_state(o, vd, full):
    """Files of a version, from the inventory of the head."""
    inv = json.loads(full["inventory.json"])
    man = {k.lower(): v for k, v in inv["manifest"].items()}
    out = {}
    for dg, ps in inv["versions"][vd]["state"].items():
        for p in ps:
            out[p] = full[man[dg.lower()][0]]
    return out


def complete(d, tree):
    """True if the object at d is sound and its head holds exactly the tree."""
    probs = oracle.check_object(d)
    if probs:
        return str(probs[:2])
    full = read_tree(d)
    inv = json.loads(full["inventory.json"])
    got = lib_state(None, inv["head"], full)
    return got == tree or "head holds other files"


def answers(ctx, what, base, fn, right, most=10):
    """fn gives a right answer or raises, whatever cannot be read."""
    ev, good = seen(ctx, base, fn)
    if good[0] == "value":
        ctx.check(right(good[1], good[1]), "wrong result of " + what, "%r", str(good[1])[:200])
    for e in ctx.rng.sample(ev, min(len(ev), most)):
        t = Trouble(ctx, e, base)
        r = disturbed(ctx, what, t, fn)
        if r and r[0] == "value":
            ctx.check(right(r[1], good[1]), "wrong result of %s of what cannot be read" % what, "%s: %s, undisturbed %s", t, str(r[1])[:200], str(good[1])[:200])


def outcome(fn):
    try:
        return ("value", fn())
    except Exception as e:  # pylint: disable=broad-except
        return ("raised", e)


# ---------------------------------------------------------------- roots

def roots(ctx):
    rng = ctx.rng
    r, stop = c15.compose(ctx, faults=rng.random() < 0.3, structural=0.1)
    for name, kw in rng.sample([("", {}), (" without digests", {"check_digests": False}), (" without objects", {"validate_objects": False}), (" with few errors", {"max_errors": 0})], 2):
        what = "validation of root" + name
        fn = lambda kw=kw: lib.ocfl.StorageRoot(root=r.dir, spec_version=r.expect_spec).validate(**kw)   # noqa: E731
        ev, _ = seen(ctx, r.dir, fn)
        for e in rng.sample(ev, min(len(ev), 12)):
            t = Trouble(ctx, e, r.dir)
            got = disturbed(ctx, what, t, fn)
            if got and got[0] == "value":
                ctx.check(got[1] is False, "what cannot be read is valid: " + what, "%s: %s", t, got[1])

    def listing():
        s = lib.ocfl.StorageRoot(root=r.dir, spec_version=r.expect_spec)
        out = dict(s.list_objects())
        return out, s.num_traversal_errors

    def complete_list(v, good):
        got, n = v
        if n <= r.n_trav and set(got) != set(r.objects):
            return False
        return all(i == good[0][p] or i == "UNKNOWN-ID" for p, i in got.items())
    if not stop:
        answers(ctx, "listing", r.dir, listing, complete_list, most=12)
    answers(ctx, "find_path_type", r.dir, lambda: find_path_type(r.dir), lambda v, right: isinstance(v, str) and v not in ({"root", "object", "file"} - {right}))
    if rng.random() < 0.5:
        d = ctx.path("new")
        o = foreign.make(rng, ctx.tier, nv=rng.choice([1, 2]), simple_paths=True, ident="urn:new:1")
        foreign.write(o, d)
        root = ctx.path("r2")
        lib.ocfl.StorageRoot(root=root, layout_name=rng.choice(["0003-hash-and-id-n-tuple-storage-layout", "nnnn-flat-quoted-storage-layout"])).initialize()
        empty = read_tree(root)
        full = {k: v for k, v in snapshot(d).items()}

        def prepare():
            shutil.rmtree(root)
            write_tree(root, empty)

        def look(p):
            return snapshot(os.path.join(root, p)).keys() == full.keys() and read_tree(os.path.join(root, p)) == read_tree(d)
        answers(ctx, "addition", ctx.dir, Op(lambda: lib.ocfl.StorageRoot(root=root).add(d)[1], look, prepare), lambda v, right: v is True or right is not True)


# ---------------------------------------------------------------- sources

def sources(ctx):
    rng = ctx.rng
    src = ctx.path("src")
    if rng.random() < 0.6:
        tree = gen.tree(rng, gen.Pool(rng, False), n=rng.choice([1, 2, 5, 9]), odd=0.15)
        write_tree(src, tree)

        def create():
            d = ctx.path("o%d" % rng.randrange(10 ** 9))
            lib.ocfl.Object(identifier="urn:x", digest_algorithm=rng.choice(["sha512", "sha256"]), fixity=rng.choice([None, ["md5"]])).create(srcdir=src, objdir=d, metadata=lib.vmeta(gen.meta(rng)))
            return d
        answers(ctx, "creation", src, Op(create, lambda d: complete(d, tree)), lambda v, right: v is True)
    else:
        trees = {}
        for n in range(rng.choice([1, 2, 3])):
            trees["v%d" % (n + 1)] = t = gen.tree(rng, gen.Pool(rng, False), n=rng.choice([1, 3]), odd=0.1)
            write_tree(src + "/v%d" % (n + 1), t)
        tree = trees["v%d" % len(trees)]

        def build():
            d = ctx.path("o%d" % rng.randrange(10 ** 9))
            lib.ocfl.Object(identifier="urn:x").build(src, versions_metadata={n + 1: lib.vmeta(gen.meta(rng)) for n in range(len(trees))}, objdir=d)
            return d

        def look(d):
            full = read_tree(d)
            r = complete(d, tree)
            return r if r is not True else all(lib_state(None, v, full) == t for v, t in trees.items())
        answers(ctx, "building", src, Op(build, look), lambda v, right: v is True)
    files = sorted(read_tree(src))
    if not files:
        return
    f, g = os.path.join(src, rng.choice(files)), os.path.join(src, rng.choice(files))
    fs = fsw_openfs(ctx.dir)
    answers(ctx, "walk", src, lambda: sorted(fsw_walk_files(fsw_openfs(src))), lambda v, right: v == files)
    alg = rng.choice(["md5", "sha1", "sha256", "sha512", "blake2b-512", "sha512/256", "size"])
    answers(ctx, "digest", src, lambda: file_digest(f, alg), lambda v, right: v == right)
    answers(ctx, "comparison", src, lambda: fsw_files_identical(fs, os.path.relpath(f, ctx.dir), os.path.relpath(g, ctx.dir)), lambda v, right: v == right)
    answers(ctx, "reading of text", src, lambda: fsw_readtext(f), lambda v, right: v == right)

    def copydir():
        n = "c%d" % rng.randrange(10 ** 9)
        fsw_copydir(fs, "src", fs, n)
        return ctx.path(n)
    answers(ctx, "copying", src, Op(copydir, read_tree), lambda v, right: v == right and len(right) == len(files))

    def copyfile():
        n = "f%d" % rng.randrange(10 ** 9)
        fsw_copyfile(fs, os.path.relpath(f, ctx.dir), fs, n)
        return ctx.path(n)
    answers(ctx, "copying of a file", src, Op(copyfile, content), lambda v, right: v == right)


# ---------------------------------------------------------------- archives

def archives(ctx):
    """An archive that is cut off or altered is not valid, unless it still holds the same."""
    rng = ctx.rng
    d = ctx.path("obj")
    o = make_object(ctx, d, False)
    z = ctx.path("o.zip")
    files = read_tree(d)
    comp = rng.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED])
    with zipfile.ZipFile(z, "w", comp) as zf:
        for n in rng.sample(sorted(files), len(files)):
            zf.writestr(n, files[n])
        for dp, dns, fns in os.walk(d):
            if not dns and not fns:
                zf.writestr(os.path.relpath(dp, d) + "/", b"")
    with open(z, "rb") as fh:
        raw = fh.read()
    ok = ctx.call("validation of archive", lib.Validator().validate_object, "zip://" + z)
    ctx.check(ok is True, "sound archive is not valid", "%s", o.features)
    for _ in range(14):
        b = bytearray(raw)
        how = rng.choice(["cut", "bit", "bit", "bit", "zero", "join"])
        i = rng.randrange(len(b))
        if how == "cut":
            del b[i:]
        elif how == "bit":
            b[i] ^= 1 << rng.randrange(8)
        elif how == "zero":
            b[i:i + 40] = bytes(len(b[i:i + 40]))
        else:
            b[i:i] = rng.randbytes(rng.choice([1, 7, 100]))
        if bytes(b) == raw:
            continue
        with open(z, "wb") as fh:
            fh.write(b)
        same = decodes(bytes(b), {n: c for n, c in files.items() if n in o.content or n.split("/")[-1].startswith(("inventory.json", "0=")) and n.count("/") < 2})
        got = outcome(lambda: lib.Validator().validate_object("zip://" + z))
        ctx.stats["calls"] += 1
        ctx.count("archive %s: %s%s" % (how, got[1] if got[0] == "value" else type(got[1]).__name__, " (same content)" if same else ""))
        ctx.sig.append(("archive", how, got[0], same, comp))
        if got[0] == "value":
            ctx.check(isinstance(got[1], bool) and (got[1] is False or same), "altered archive is valid", "%s at %d of %d: %s, %s", how, i, len(raw), bytes(raw[max(0, i - 60):i + 60]), bytes(b[max(0, i - 60):i + 60]))


def decodes(raw, files):
    """True if the archive still holds all these files, as they were."""
    try:
        with zipfile.ZipFile(io.BytesIO(raw)) as zf:
            return all(zf.read(n) == c for n, c in files.items())
    except Exception:  # pylint: disable=broad-except
        return False


# ---------------------------------------------------------------- S3

def remote(ctx):
    rng = ctx.rng
    with s3.Bucket(ctx) as b:
        b.server.page = rng.choice([1000, 1000, 3])
        root = rng.random() < 0.35
        o = foreign.make(rng, ctx.tier, nv=rng.choice([1, 2, 3]), simple_paths=True)
        if o.dirs:
            raise Skip()
        if root:
            b.put("r", dict({"0=ocfl_1.1": b"ocfl_1.1\n"}, **{"a/b/" + k: v for k, v in o.files.items()}))
            fns = [("validation of root on S3", lambda: lib.ocfl.StorageRoot(root=b.url + "/r").validate(), lambda v: v is False),
                   ("validation of root on S3 without objects", lambda: lib.ocfl.StorageRoot(root=b.url + "/r").validate(validate_objects=False), lambda v: v is False),
                   ("listing on S3", lambda: list(lib.ocfl.StorageRoot(root=b.url + "/r").list_objects()), lambda v: v in ([("a/b", o.id)], [("a/b", "UNKNOWN-ID")]))]
        else:
            b.put("o", o.files)
            want = lib_state(o, o.vdirs[-1], o.files)

            def extract():
                dst = ctx.path("x%d" % rng.randrange(10 ** 9))
                lib.ocfl.Object().extract(b.url + "/o", "head", dst)
                return read_tree(dst)
            fns = [("validation on S3", lambda: lib.Validator().validate_object(b.url + "/o"), lambda v: v is False),
                   ("validation on S3 without digests", lambda: lib.ocfl.Object().validate(objdir=b.url + "/o", check_digests=False)[0], lambda v: v is False)]
            if want:
                fns.append(("extraction from S3", extract, lambda v: v == want))
        for name, fn, right in fns:
            s3.forget()
            b.server.log = []
            good = outcome(fn)
            ctx.check(good[0] == "value", name + " raised", "%s", good[1])
            log = sorted({(w, k) for w, _, k in b.server.log if w in ("GET", "LIST")})
            for w, k in rng.sample(log, min(len(log), 6)):
                hits = []

                def fault(what, _bucket, key, w=w, k=k, hits=hits):
                    if what == w and key == k:
                        hits.append(1)
                        return 403
                    return None
                s3.forget()
                b.server.fault = fault
                try:
                    r = outcome(fn)
                finally:
                    b.server.fault = None
                ctx.stats["calls"] += 1
                if not hits:
                    ctx.count("fault not reached: " + name)
                    continue
                ctx.count("end: %s %s" % (name, "value" if r[0] == "value" else type(r[1]).__name__))
                ctx.sig.append((name, w, role("/" + k, "/o" if not root else "/r/a/b"), r[0]))
                if r[0] == "value":
                    ctx.check(right(r[1]), "wrong result of %s of what cannot be read" % name, "%s %s: %s", w, k, str(r[1])[:200])
        s3.forget()


def case(ctx):
    c30.ready()
    c30.HANDLES.on = True
    try:
        r = ctx.rng.random()
        for limit, name, fn in ((0.5, "objects", objects), (0.7, "roots", roots), (0.85, "sources", sources), (0.94, "archives", archives), (2, "S3", remote)):
            if r < limit:
                ctx.count("stream: " + name)
                fn(ctx)
                break
    finally:
        FS.fault, FS.fault_reads = None, False
        if FS.events is not None:
            FS.stop()
        c30.HANDLES.on = False
        c30.HANDLES.held, c30.HANDLES.plan, c30.HANDLES.only = [], None, None
