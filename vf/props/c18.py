"""C18: file-system helpers copy, walk, compare and digest faithfully."""
import hashlib
import itertools
import os
import re
import zipfile

from vf import gen, lib
from vf.common import source_dictionary
from vf.monitors import read_tree, snap_diff, snapshot, write_tree

from ocfl import digest as D
from ocfl import fsw as F

ID = "C18"
LEVEL = "exploration"
QUICK, THOROUGH = 5000, 150000
MIN_DISTINCT = 500
RULE = ("Trees with odd and unicode names and sizes around every integer constant of the source (buffer sizes plus and minus one, multiples) on local, memory and zip back ends, opened by path, URL or as a directory of another file system; copies of files and directories "
        "between every pair of back ends, complete and pruned walks, listings, comparisons of files that are equal or differ in one byte near the start, end or a buffer boundary, and all digests by file and string, compared with os-level reads and hashlib. "
        "Refusals (missing source, existing destination, unknown digest) are checked to change nothing. Distinct by back ends, sizes and shape.")

ALGS = {"sha512": lambda b: hashlib.sha512(b).hexdigest(), "sha256": lambda b: hashlib.sha256(b).hexdigest(), "sha1": lambda b: hashlib.sha1(b).hexdigest(),
        "md5": lambda b: hashlib.md5(b).hexdigest(), "blake2b-512": lambda b: hashlib.blake2b(b, digest_size=64).hexdigest(),
        "blake2b-160": lambda b: hashlib.blake2b(b, digest_size=20).hexdigest(), "blake2b-256": lambda b: hashlib.blake2b(b, digest_size=32).hexdigest(),
        "blake2b-384": lambda b: hashlib.blake2b(b, digest_size=48).hexdigest(),
        "sha512-spec-ex": lambda b: hashlib.sha512(b).hexdigest()[:15] + "..." + hashlib.sha512(b).hexdigest()[-3:],
        "sha256-spec-ex": lambda b: hashlib.sha256(b).hexdigest()[:6] + "..." + hashlib.sha256(b).hexdigest()[-3:]}
HEX = {"sha512": 128, "sha256": 64, "sha1": 40, "md5": 32, "blake2b-512": 128, "blake2b-384": 96, "blake2b-256": 64, "blake2b-160": 40}

_n = itertools.count()


def content(rng, big):
    if not big:
        return gen.content(rng, False)
    base = rng.choice([i for i in source_dictionary()[1] if 1000 < i <= 600000] or [65536, 262144])
    n = base * rng.choice([1, 1, 2, 3]) + rng.choice([-1, 0, 1, 17])
    n = min(n, 900000)
    blk = rng.randbytes(997)
    return (blk * (n // 997 + 1))[:n]


def tree(rng, zipable):
    out = {}
    if rng.random() < 0.015:
        return gen.extreme(rng)
    big = rng.random() < 0.25
    for _ in range(rng.choice([0, 1, 2, 3, 5, 9, 14])):
        p = gen.new_path(rng, out)
        if p.startswith("dir::") or (zipable and any(ord(c) < 32 or c == "\\" for c in p)):
            continue
        out[p] = content(rng, big and rng.random() < 0.5)
    return out


class Place:
    """A tree on some back end, reachable as .fs with prefix .base."""

    def __init__(self, ctx, kind, files, dirs=()):
        rng = ctx.rng
        self.kind, self.files = kind, files
        self.root = ctx.path("pl%d" % next(_n))
        self.mem = None
        self.base = rng.choice(["", "", "sub", "a b/c"])
        under = {(self.base + "/" if self.base else "") + p: b for p, b in files.items()}
        udirs = [(self.base + "/" if self.base else "") + d for d in dirs]
        if kind == "zip":
            self.root += ".zip"
            with zipfile.ZipFile(self.root, "w", rng.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED])) as z:
                for p in sorted(under):
                    z.writestr(p, under[p])
            self.fs = ctx.call("openfs", F.fsw_openfs, "zip://" + self.root)
        elif kind == "memory":
            name = "vf%d-%d" % (os.getpid(), next(_n))
            self.fs = ctx.call("openfs", F.fsw_openfs, "memory://" + name)
            self.mem = name
            for p in udirs:
                self.fs.makedirs(p, exist_ok=True)
            self.fs.makedirs(self.base, exist_ok=True)
            for p in under:
                if "/" in p:
                    self.fs.makedirs(os.path.dirname(p), exist_ok=True)
                with self.fs.open(p, "wb") as fh:
                    fh.write(under[p])
        else:
            os.makedirs(os.path.join(self.root, self.base), exist_ok=True)
            write_tree(self.root, under)
            for p in udirs:
                os.makedirs(os.path.join(self.root, p), exist_ok=True)
            how = rng.choice(["path", "url", "relative", "subdir"])
            if how == "path":
                self.fs = ctx.call("openfs", F.fsw_openfs, self.root)
            elif how == "url":
                self.fs = ctx.call("openfs", F.fsw_openfs, "file://" + self.root)
            elif how == "relative":
                os.chdir(ctx.dir)
                self.fs = ctx.call("openfs", F.fsw_openfs, os.path.basename(self.root))
            else:
                self.fs = ctx.call("opendir", F.fsw_opendir_as_fs, F.fsw_openfs(ctx.dir), os.path.basename(self.root))
        if self.base and rng.random() < 0.4:
            self.fs = ctx.call("opendir", F.fsw_opendir_as_fs, self.fs, self.base)
            self.base_on_disk, self.base = self.base, ""
        else:
            self.base_on_disk = self.base

    def path(self, p):
        return self.base + "/" + p if self.base else p

    def read(self, sub):
        """Independent read of everything below sub."""
        if self.kind == "memory":
            import fsspec
            store = fsspec.filesystem("memory").store
            pre = "/" + "/".join(x for x in (self.mem, self.base_on_disk, sub) if x) + "/"
            return {k[len(pre):]: v.getvalue() for k, v in store.items() if k.startswith(pre)}
        return read_tree(os.path.join(self.root, self.base_on_disk, sub))

    def close(self):
        if self.mem:
            import fsspec
            fsspec.filesystem("memory").rm("/" + self.mem, recursive=True)


def walk_check(ctx, pl, files, dirs):
    rng = ctx.rng
    forms = [pl.base, "/" + pl.base]
    start = rng.choice(forms)
    got = ctx.call("fsw_walk_files", lambda: list(F.fsw_walk_files(pl.fs, start)))
    ctx.check(sorted(got) == sorted(files), "walk does not find every file once", "%s %r: extra %s missing %s", pl.kind, start, sorted(set(got) - set(files))[:3], sorted(set(files) - set(got))[:3])
    if start in ("", "/") and rng.random() < 0.5:
        got = ctx.call("fsw_walk_files", lambda: list(F.fsw_walk_files(pl.fs)))
        ctx.check(sorted(got) == sorted(files), "walk without start does not find every file once", pl.kind)
    alld = {""} | {os.path.dirname(p) for p in files} | set(dirs)
    for d in list(alld):
        while d:
            d = os.path.dirname(d)
            alld.add(d)
    seen = {}
    prune = rng.random() < 0.4
    pruned = set()
    for dirpath, ds, fs in F.fsw_walk(pl.fs, start):
        rel = dirpath.strip("/")
        rel = rel[len(pl.base):].strip("/") if pl.base else rel
        ctx.check(rel not in seen, "walk visits directory twice", "%r", rel)
        seen[rel] = True
        want_f = sorted(os.path.basename(p) for p in files if os.path.dirname(p) == rel)
        want_d = sorted({os.path.basename(x) for x in alld if x and os.path.dirname(x) == rel})
        ctx.check(sorted(fs) == want_f and sorted(ds) == want_d, "walk lists directory wrongly", "%s %r: %s %s", pl.kind, rel, sorted(fs), sorted(ds))
        if prune and ds and rng.random() < 0.4:
            gone = rng.choice(ds)
            ds.remove(gone)
            pruned.add((rel + "/" if rel else "") + gone)
    want = {d for d in alld if not any(d == p or d.startswith(p + "/") for p in pruned)}
    ctx.check(set(seen) == want, "walk does not visit exactly the directories", "%s", sorted(set(seen) ^ want)[:4])
    for d in rng.sample(sorted(alld), min(3, len(alld))):
        p = pl.path(d) if d else pl.base
        got = ctx.call("fsw_listdir_names", F.fsw_listdir_names, pl.fs, rng.choice([p, "/" + p]))
        want = sorted({os.path.basename(x) for x in files if os.path.dirname(x) == d} | {os.path.basename(x) for x in alld if x and os.path.dirname(x) == d})
        ctx.check(sorted(got) == want, "listing wrong", "%s %r: %s expected %s", pl.kind, d, sorted(got), want)
        if pl.kind == "local" and rng.random() < 0.5:
            full = os.path.join(pl.root, pl.base_on_disk, d).rstrip("/")
            got = ctx.call("fsw_listdir_names local", F.fsw_listdir_names, None, full)
            ctx.check(sorted(got) == want, "listing of local path wrong", "%r: %s expected %s", full, sorted(got), want)


def digests(ctx, pl, files):
    rng = ctx.rng
    for p in rng.sample(sorted(files), min(3, len(files))):
        for a in rng.sample(sorted(ALGS), 4):
            got = ctx.call("file_digest", D.file_digest, pl.path(p), a, fs=pl.fs)
            ctx.check(got == ALGS[a](files[p]), "file digest wrong", "%s of %d bytes: %s", a, len(files[p]), got)
            if pl.kind == "local" and rng.random() < 0.3:
                full = os.path.join(pl.root, pl.base_on_disk, p)
                if rng.random() < 0.5:
                    os.chdir(os.path.dirname(full))
                    full = os.path.basename(full)
                got = ctx.call("file_digest local", D.file_digest, full, a)
                ctx.check(got == ALGS[a](files[p]), "digest of local file wrong", "%s %r", a, full)
            if a in HEX:
                rx = D.digest_regex(a)
                bad = [got[:-1], got + "0", got[:-1] + "g", "", " " + got]
                ctx.check(re.match(rx, got) and re.match(rx, got.upper()) and not any(re.match(rx, x) for x in bad), "digest pattern wrong", a)
        ctx.count("file digests", 4)
    got = ctx.call("file_digest default", D.file_digest, pl.path(p), fs=pl.fs) if files else None
    ctx.check(not files or got == ALGS["sha512"](files[p]), "default digest wrong")
    for bad in ("sha3-256", "SHA512", "", "md5 ", None, "blake2b", "sha-512"):
        if files:
            ctx.refused("file_digest with unknown algorithm", ValueError, D.file_digest, pl.path(p), bad, fs=pl.fs)
        ctx.refused("string_digest with unknown algorithm", ValueError, D.string_digest, "x", bad)
        ctx.refused("digest_regex of unknown algorithm", ValueError, D.digest_regex, bad)
    ctx.refused("file_digest of missing file", FileNotFoundError, D.file_digest, pl.path("no such file"), "md5", fs=pl.fs)
    for t in (rng.choice(gen.UNI), "", gen.object_id(rng), "x" * rng.choice([63, 64, 65, 127, 128, 129, 70000])):
        for a in ("sha512", "sha256", "sha1", "md5"):
            ctx.check(D.string_digest(t, a) == ALGS[a](t.encode("utf8")), "string digest wrong", "%s %r", a, t[:20])
        ctx.check(D.string_digest(t) == ALGS["sha512"](t.encode("utf8")), "default string digest wrong")
    for a in HEX:
        x = "".join(rng.choice("0123456789abcdefABCDEF") for _ in range(HEX[a]))
        ctx.check(D.normalized_digest(x, a) == x.lower(), "normalized digest wrong", a)
    for a in ("sha512-spec-ex", "sha256-spec-ex"):
        ctx.check(D.normalized_digest("4D27c8...b53", a) == "4D27c8...b53", "normalized digest wrong", a)


def compare(ctx, pl, files):
    """Files that are alike and files that differ in one place."""
    rng = ctx.rng
    for _ in range(2):
        data = content(rng, rng.random() < 0.5)
        other = data
        how = rng.choice(["same", "same", "byte", "byte", "byte", "longer", "shorter", "empty", "case"])
        if how == "byte" and data:
            ints = [i for i in source_dictionary()[1] if 0 < i < len(data)]
            k = rng.choice([0, len(data) - 1, rng.randrange(len(data))] + ([rng.choice(ints) + rng.choice([-1, 0])] if ints else []))
            other = data[:k] + bytes([data[k] ^ (1 << rng.randrange(8))]) + data[k + 1:]
        elif how == "longer":
            other = data + rng.choice([b"\0", b"\n", data[-1:]])
        elif how == "shorter":
            other = data[:-1]
        elif how == "empty":
            other = b""
        elif how == "case":
            other = data.swapcase()
        a, b = "cmp-a-%d" % next(_n), "cmp-b-%d" % next(_n)
        for n, x in ((a, data), (b, other)):
            with pl.fs.open(pl.path(n), "wb") as fh:
                fh.write(x)
        a, b = pl.path(a), pl.path(b)
        if rng.random() < 0.5:
            a, b = b, a
        got = ctx.call("fsw_files_identical", F.fsw_files_identical, pl.fs, a, b)
        ctx.check(got is (data == other), "comparison of files wrong", "%s: %s for %d and %d bytes", how, got, len(data), len(other))
        ctx.check(F.fsw_files_identical(pl.fs, a, a) is True, "file differs from itself")
        ctx.refused("comparison with missing file", FileNotFoundError, F.fsw_files_identical, pl.fs, *rng.choice([(a, "nope"), ("nope", a), ("nope", "nope")]))
        ctx.count("comparison " + how)
        for n in (a, b):
            pl.fs.rm(n)


def copies(ctx, src, dst, files):
    rng = ctx.rng
    for p in rng.sample(sorted(files), min(2, len(files))):
        t = "copied %d" % next(_n)
        if rng.random() < 0.2:      # an existing longer file is replaced
            with dst.fs.open(dst.path(t), "wb") as fh:
                fh.write(files[p] + b"more")
        ctx.call("fsw_copyfile", F.fsw_copyfile, src.fs, src.path(p), dst.fs, dst.path(t))
        with dst.fs.open(dst.path(t), "rb") as fh:
            got = fh.read()
        ctx.check(got == files[p], "copied file differs", "%s to %s: %d bytes of %d", src.kind, dst.kind, len(got), len(files[p]))
        dst.fs.rm(dst.path(t))
        ctx.count("file copied %s to %s" % (src.kind, dst.kind))
    t = rng.choice(["dest", "deep/er/dest", "\u00e9"]) + "-%d" % next(_n)
    if "/" not in t or dst.kind == "local" or True:
        start = rng.choice([src.base, "/" + src.base]) if src.base else rng.choice(["", "/"])
        ctx.call("fsw_copydir", F.fsw_copydir, src.fs, start, dst.fs, dst.path(t))
        got = dst.read(t)
        ctx.check(got == files, "copied directory differs", "%s to %s: extra %s missing %s differing %s", src.kind, dst.kind, sorted(set(got) - set(files))[:3], sorted(set(files) - set(got))[:3],
                  [p for p in files if p in got and got[p] != files[p]][:3])
        ctx.check(dst.fs.isdir(dst.path(t)), "copied directory not there")
        ctx.count("directory copied %s to %s" % (src.kind, dst.kind))
    # A directory within
    sub = sorted({os.path.dirname(p) for p in files} - {""})
    if sub:
        d = rng.choice(sub)
        t2 = "part-%d" % next(_n)
        ctx.call("fsw_copydir", F.fsw_copydir, src.fs, src.path(d), dst.fs, dst.path(t2))
        want = {p[len(d) + 1:]: b for p, b in files.items() if p.startswith(d + "/")}
        ctx.check(dst.read(t2) == want, "copied inner directory differs", "%s to %s: %r", src.kind, dst.kind, d)
    before = dst.read("")
    ctx.refused("copy onto existing directory", F.FswException, F.fsw_copydir, src.fs, src.base, dst.fs, dst.path(t))
    ctx.refused("copy of missing directory", F.FswException, F.fsw_copydir, src.fs, src.path("no such dir"), dst.fs, dst.path("new-%d" % next(_n)))
    if files:
        ctx.refused("copy of file as directory", F.FswException, F.fsw_copydir, src.fs, src.path(sorted(files)[0]), dst.fs, dst.path("new-%d" % next(_n)))
    ctx.check(dst.read("") == before, "refused copy changed the destination")


def opening(ctx):
    rng = ctx.rng
    d = ctx.path("open here")
    os.makedirs(d)
    for bad in (ctx.path("missing"), "file://" + ctx.path("missing"), ctx.path("missing/deeper")):
        ctx.refused("open of missing directory", FileNotFoundError, F.fsw_openfs, bad)
    with open(os.path.join(d, "f"), "wb") as fh:
        fh.write(b"x")
    ctx.refused("open of file as directory", FileNotFoundError, F.fsw_openfs, os.path.join(d, "f"))
    ctx.refused("creation below missing directory", FileNotFoundError, F.fsw_openfs, ctx.path("missing/x"), create=True)
    before = snapshot(d)
    ctx.refused("creation of existing directory", F.FswException, F.fsw_openfs, d, create=True, exists_ok=False)
    name = gen.segment(rng)
    if name.startswith("dir::") or name == "f":
        name = "plain"
    ctx.check(not snap_diff(before, snapshot(d)), "refused open changed something")
    ctx.call("creation", F.fsw_openfs, os.path.join(d, name), create=True)
    ctx.check(sorted(os.listdir(d)) == sorted(["f", name]) and os.path.isdir(os.path.join(d, name)), "directory not created as named", "%r: %s", name, os.listdir(d))
    fs = ctx.call("opening created", F.fsw_openfs, os.path.join(d, name), create=True)
    with fs.open("y", "wb") as fh:
        fh.write(b"yy")
    ctx.check(read_tree(d) == {"f": b"x", name + "/y": b"yy"}, "file written to another place", "%s", sorted(read_tree(d)))
    ctx.check(F.fsw_openfs(fs) is fs, "opened file system not returned as it is")
    txt = "line\n\u00e9\u6587\n"
    with open(os.path.join(d, "t"), "wb") as fh:
        fh.write(txt.encode("utf8"))
    ctx.check(ctx.call("fsw_readtext", F.fsw_readtext, "t", F.fsw_openfs(d)) == txt and ctx.call("fsw_readtext", F.fsw_readtext, os.path.join(d, "t")) == txt, "text read wrong")


def case(ctx):
    rng = ctx.rng
    kind = rng.choice(["local", "local", "memory", "zip"])
    files = tree(rng, kind == "zip")
    dirs = []
    if kind == "zip" and not files:
        files = {"one": b"1"}
    if kind != "zip":
        for _ in range(rng.choice([0, 0, 1, 2])):
            d = gen.new_path(rng, files)
            if not d.startswith("dir::"):
                dirs.append(d)
        dirs = [d for i, d in enumerate(dirs) if not gen.conflict(d, dirs[:i])]
    src = Place(ctx, kind, files, dirs)
    dst = Place(ctx, rng.choice(["local", "memory", "local"]), {})
    try:
        ctx.note("back ends", src.kind, dst.kind, len(files), bool(src.base), bool(dst.base))
        ctx.sig.append(tuple(sorted((p.count("/"), len(b)) for p, b in files.items())))
        before = src.read("") if kind != "zip" else None
        walk_check(ctx, src, files, dirs)
        digests(ctx, src, files)
        copies(ctx, src, dst, files)
        compare(ctx, dst, files)
        if kind != "zip":
            ctx.check(src.read("") == before, "source changed")
        if ctx.index % 10 == 0:
            opening(ctx)
    finally:
        src.close()
        dst.close()
