"""C12: the verdict does not depend on where or how the object is looked at."""
import json
import os
import shutil
import zipfile

import fsspec

from ocfl.fsw import fsw_openfs, fsw_opendir_as_fs

from vf import foreign, hostile, lib, oracle, s3
from vf.monitors import read_tree
from vf.props import c08

ID = "C12"
LEVEL = "exploration"
QUICK, THOROUGH = 2500, 60000
DIGEST_CODES = {"E092a", "E093a", "E060", "E061"}
MIN_DISTINCT = 300
RULE = ("Objects from an independent writer, half of them damaged (one corruption of the C08 catalogue, or 1-2 hostile JSON or file changes), each validated about fifteen ways: directory path (absolute, relative, file://, "
        "trailing slash, copied elsewhere), open file systems, zip with and without directory entries, in-memory file system, S3, every log option, other language, another Object configuration, inventories "
        "re-encoded with another key order, white space and escaping. Verdict and set of codes must be equal; with content digests skipped the errors must be a subset; with lax digests an accepted object stays accepted. "
        "Distinct by (damage, features).")
ASSUMPTIONS = ["S3 is a server written for this purpose, on the loopback interface", "objects hold regular files and directories with decodable names"]


def answer(ctx, what, fn, *args, **kw):
    passed, v = ctx.call(what, fn, *args, **kw)
    return passed, lib.codes(v), v.spec_version


class Damage(c08.Bench):
    """The C08 catalogue used only to damage: record, do not judge."""

    def expect(self, name, families, structural, detail=""):
        self.name = name


def zip_of(d, out, with_dirs, prefix_order):
    files, dirs = [], []
    for dp, dns, fns in os.walk(d):
        files += [os.path.relpath(os.path.join(dp, f), d) for f in fns]
        dirs += [(os.path.relpath(os.path.join(dp, n), d), not os.listdir(os.path.join(dp, n))) for n in dns]
    prefix_order(files)
    with zipfile.ZipFile(out, "w", zipfile.ZIP_DEFLATED) as z:
        for n, empty in sorted(dirs):
            if with_dirs or empty:
                z.writestr(zipfile.ZipInfo(n + "/"), b"")
        for f in files:
            with open(os.path.join(d, f), "rb") as fh:
                z.writestr(zipfile.ZipInfo(f), fh.read())


def memory_of(d, name):
    m = fsspec.filesystem("memory")
    base = "/" + name
    if m.exists(base):
        m.rm(base, recursive=True)
    m.makedirs(base)
    for dp, dns, fns in os.walk(d):
        for n in dns:
            m.makedirs(base + "/" + os.path.relpath(os.path.join(dp, n), d), exist_ok=True)
        for f in fns:
            p = os.path.join(dp, f)
            with open(p, "rb") as fh:
                m.pipe(base + "/" + os.path.relpath(p, d), fh.read())
    return m, base


def reencode(rng, v, depth=0):
    """Same JSON value with another key order."""
    if isinstance(v, dict):
        ks = list(v)
        rng.shuffle(ks)
        return {k: reencode(rng, v[k]) for k in ks}
    if isinstance(v, list):
        return [reencode(rng, x) for x in v]
    return v


def text_of(rng, v):
    style = rng.randrange(5)
    if style == 0:
        return json.dumps(v).encode()
    if style == 1:
        return ("\n\t " + json.dumps(v, indent=3) + "\r\n").encode()
    if style == 2:
        t = json.dumps(v, separators=(" ,\n", " :\t"))
        return t.encode()
    if style == 3:
        try:
            return json.dumps(v, ensure_ascii=False).encode("utf8")
        except UnicodeEncodeError:
            return json.dumps(v, indent="\t").encode()
    # escape even what needs no escaping
    t = json.dumps(v)
    return t.replace("/", "\\/").encode()


def reformat(ctx, d):
    """Re-encode every inventory of the object, keeping sidecars right where they were right. False if not applicable."""
    rng = ctx.rng
    found, by_raw, by_val = [], {}, {}
    for dp, _, fns in os.walk(d):
        if "inventory.json" in fns and dp.count("/") - d.count("/") <= 1:
            p = os.path.join(dp, "inventory.json")
            with open(p, "rb") as fh:
                raw = fh.read()
            try:
                v = json.loads(raw.decode("utf8"), object_pairs_hook=pairs)
                key = json.dumps(v, sort_keys=True)
            except (ValueError, RecursionError):
                return False
            if raw.startswith(b"\xef\xbb\xbf"):
                return False
            if by_val.setdefault(key, raw) != raw:
                return False        # same value, different bytes: the difference is itself a fault
            found.append((p, raw, v))
            by_raw[raw] = None
    for p, raw, v in found:
        if by_raw[raw] is None:
            by_raw[raw] = text_of(rng, reencode(rng, v))
        new = by_raw[raw]
        for alg in oracle.HEXLEN:
            s = p + "." + alg
            if os.path.isfile(s):
                with open(s, "rb") as fh:
                    t = fh.read()
                dg = oracle.digest(raw, alg).encode()
                if t.startswith(dg):
                    with open(s, "wb") as fh:
                        fh.write(oracle.digest(new, alg).encode() + t[len(dg):])
                elif t.lower().startswith(dg):
                    return False
        with open(p, "wb") as fh:
            fh.write(new)
    return bool(found)


def pairs(items):
    d = dict(items)
    if len(d) != len(items):
        raise ValueError("duplicate keys")
    return d


def case(ctx):
    rng = ctx.rng
    o = foreign.make(rng, ctx.tier, pads=foreign.WIDE, nv=rng.choice([1, 2, 2, 3]), big=rng.random() < 0.1, extreme=ctx.index % 60 == 30)
    d = ctx.path("obj")
    foreign.write(o, d)
    r = rng.random()
    damage = "none"
    if r < 0.35:
        b = Damage(ctx, o, d)
        for _ in range(8):
            b.name = None
            m = rng.choice(c08.MUTS)
            if m in c08.NEEDS_CONTENT and not o.content:
                continue
            if m is c08.m_version_inventory_byte:
                continue
            m(b)
            if b.name:
                break
            b.restore()
        damage = b.name or "none"
    elif r < 0.65:
        for _ in range(rng.choice([1, 1, 2])):
            for _ in range(6):
                keep = ctx.path("keep")
                shutil.rmtree(keep, ignore_errors=True)
                shutil.copytree(d, keep, symlinks=True)
                w = hostile.mutate_tree(rng, d)
                if w == "none" or w.startswith(("link", "undecodable")) or "\\ud" in ascii(w):
                    shutil.rmtree(d)
                    os.rename(keep, d)
                    continue
                damage = w
                break
    ctx.log(damage)
    shutil.rmtree(ctx.path("keep"), ignore_errors=True)
    ctx.note("damage", damage)
    ctx.note("features", ",".join(o.features), len(o.vdirs))
    base = answer(ctx, "validate", lib.validate, d)
    ctx.count("base " + ("valid" if base[0] else "invalid"))

    def same(what, got):
        ctx.check(got[0] is base[0], "other verdict: " + what, "%s, directory says %s (damage: %s)", got, base, damage)
        ctx.check(got[1] == base[1], "other codes: " + what, "%s, directory says %s (damage: %s)", got, base, damage)
        ctx.check(got[2] == base[2], "other specification version: " + what, "%s, directory says %s", got[2], base[2])

    # logging and other options
    for lw in (False, True):
        for le in (False, True):
            if not (lw and le):
                same("log_warnings=%s log_errors=%s" % (lw, le), answer(ctx, "validate", lib.validate, d, log_warnings=lw, log_errors=le))
    v = lib.Validator(lang=rng.choice(["xx", "de", ""]), log_warnings=True)
    p = ctx.call("validate (lang)", v.validate_object, d)
    same("language", (p, lib.codes(v), v.spec_version))
    same("another Object", answer(ctx, "validate", lib.ocfl.Object(identifier="zzz", content_directory="q", digest_algorithm=rng.choice(["sha256", "md5"]), spec_version=rng.choice(["1.0", "1.1"]),
                                                                 forward_delta=False, dedupe=False, fixity=["md5"]).validate, d))
    # places
    same("trailing slash", answer(ctx, "validate", lib.validate, d + "/"))
    same("file URL", answer(ctx, "validate", lib.validate, "file://" + d))
    same("relative path", answer(ctx, "validate", lib.validate, os.path.relpath(d)))
    same("open file system", answer(ctx, "validate", lib.ocfl.Object(obj_fs=fsw_openfs(d)).validate))
    same("directory of open file system", answer(ctx, "validate", lib.ocfl.Object().validate, fsw_opendir_as_fs(fsw_openfs(ctx.dir), "obj")))
    zf = ctx.path("o.zip")
    if os.listdir(d):
        for wd in (True, False):
            zip_of(d, zf, wd, rng.shuffle)
            got = answer(ctx, "validate zip", lib.validate, "zip://" + zf)
            same("zip file" + (" with directory entries" if wd else ""), got)
            os.remove(zf)
    m, mb = memory_of(d, "vf-%d-%d" % (os.getpid(), ctx.index))
    try:
        same("memory file system", answer(ctx, "validate memory", lib.validate, "memory://" + mb[1:]))
    finally:
        m.rm(mb, recursive=True)
    if rng.random() < 0.3 and os.listdir(d) and all(dns or fns for _, dns, fns in os.walk(d)):     # no empty directories there
        with s3.Bucket(ctx) as b:
            at = rng.choice(["o", "a/b c/o", "\u00e9+=/o", ""])
            b.put(at, read_tree(d))
            b.server.page = rng.choice([1000, 1000, 2])
            same("S3", answer(ctx, "validate S3", lib.validate, (b.url + "/" + at).rstrip("/") + rng.choice(["", "/"])))
            ctx.count("requests to S3", len(b.server.log))
    c = ctx.path("other place \u00e9")
    shutil.copytree(d, c)
    same("copy", answer(ctx, "validate", lib.validate, c))
    # fewer checks, laxer checks
    got = answer(ctx, "validate", lib.validate, d, check_digests=False)
    e0, e1 = set(x for x in base[1] if x[0] == "E"), set(x for x in got[1] if x[0] == "E")
    ctx.check(e1 <= e0 and (got[0] or not base[0]), "skipping content digests adds an error", "%s, with digests %s", got, base)
    for code in e0 - e1:
        ctx.count("not reported without digests: " + code)
    ctx.check(e0 - e1 <= DIGEST_CODES, "skipping content digests loses an error that has nothing to do with them", "%s, with digests %s", got, base)
    lw, le = rng.choice([(False, False), (True, False), (False, True)])
    two = answer(ctx, "validate", lib.validate, d, check_digests=False, log_warnings=lw, log_errors=le)
    ctx.check((two[0], [x for x in two[1] if x[0] == "E"]) == (got[0], [x for x in got[1] if x[0] == "E"]), "verdict without digests depends on what is logged", "%s, log_warnings=%s log_errors=%s %s", got, lw, le, two)
    got = answer(ctx, "validate", lib.validate, d, lax_digests=True)
    ctx.check(got[0] or not base[0], "lax digests rejects what is otherwise accepted", "%s, not lax %s", got, base)
    # formatting
    try:
        again = reformat(ctx, c)
    except RecursionError:
        again = False
    if again:
        same("inventories re-encoded", answer(ctx, "validate", lib.validate, c))
        ctx.count("re-encoded objects compared")
    shutil.rmtree(c)
