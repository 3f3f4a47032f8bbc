"""C11: validation is total, read-only and repeatable."""
import os

from ocfl.validation_logger import ValidationLogger

from vf import foreign, gen, hostile, lib
from vf.monitors import FS, snap_diff

ID = "C11"
LEVEL = "exploration"
QUICK, THOROUGH = 12000, 400000
MIN_DISTINCT = 500
CASE_LIMIT = 100
RULE = ("Structure-aware fuzzing: objects, standalone inventories and storage roots from an independent writer, then 1-6 hostile changes (JSON nodes replaced by any JSON value including very deep, very long, "
        "huge numbers, NUL, lone surrogates; arbitrary bytes and encodings; files turned into directories and back; additions with names of special meaning; undecodable names; dangling and cyclic links; "
        "flips, truncations, moves), or wholly random trees and values. Every validation entry point must return a boolean consistent with its own log, within the watchdog limit, without any mutating "
        "file-system event; a used validator must answer like a fresh one. Distinct by the changes made.")
ASSUMPTIONS = ["Non-existent paths given as storage root are refused with an exception (not a verdict)", "I/O errors of the device are out of scope"]


def verdict(ctx, what, passed, log):
    ctx.check(isinstance(passed, bool), "verdict is not a boolean: " + what, "%r", passed)
    errs = [c for c in log.codes if c.startswith("E")]
    ctx.check(passed == (log.num_errors == 0), "verdict disagrees with number of errors: " + what, "%s with %d errors", passed, log.num_errors)
    ctx.check(passed == (not errs), "verdict disagrees with logged codes: " + what, "%s with %s", passed, errs)
    s = ctx.call("status text of " + what, str, log)
    ctx.check(isinstance(s, str), "no status text")


def watched(ctx, what, fn, *args, **kw):
    """Run one validation: no exception, no mutating event."""
    FS.start()
    try:
        r = ctx.call(what, fn, *args, **kw)
    finally:
        ev = FS.stop()
    bad = [e for e in ev if e["op"] not in ("read", "list")]
    ctx.check(not bad, "validation writes: " + what, "%s", bad[:3])
    return r


def mcodes(msgs):
    """Codes of logged messages, in order-free form."""
    return sorted(m.split("]", 1)[0] for m in msgs)


def make_object(ctx, d, n):
    rng = ctx.rng
    r = rng.random()
    if r < 0.06:
        os.makedirs(d)
        for _ in range(rng.choice([0, 1, 5, 12])):
            ctx.log(hostile.mutate_tree(rng, d))
            ctx.sig.append(("random tree", ctx.trace[-1] if ctx.trace else ""))
        return
    o = foreign.make(rng, ctx.tier, nv=rng.choice([1, 1, 2, 2, 3]), simple_paths=True)
    foreign.write(o, d)
    for _ in range(n):
        what = hostile.mutate_tree(rng, d)
        ctx.log(what)
        ctx.sig.append((what,))
        ctx.count("change " + what.split()[0])


def do_object(ctx):
    rng = ctx.rng
    dirs = []
    for k in range(3):
        d = ctx.path("o%d" % k)
        make_object(ctx, d, 0 if rng.random() < 0.15 else rng.choice([1, 1, 1, 2, 3, 6]))
        dirs.append(d)
    kw = {"check_digests": rng.random() < 0.7, "log_warnings": rng.random() < 0.7, "log_errors": True}
    lax = rng.random() < 0.3
    before = [snapshot_any(d) for d in dirs]
    fresh = []
    for d in dirs:
        if rng.random() < 0.3:
            lib_fs = ctx.call("open file system", lib.ocfl.fsw.fsw_openfs, d)
            passed, v = watched(ctx, "validate (open file system)", lib.ocfl.Object(obj_fs=lib_fs, lax_digests=lax).validate, None, **kw)
        else:
            passed, v = watched(ctx, "validate", lib.validate, d, lax_digests=lax, **kw)
        verdict(ctx, "object", passed, v.log)
        ctx.count("object " + ("valid" if passed else "invalid"))
        fresh.append((passed, mcodes(v.log.messages), v.spec_version, v.id))
    # one validator for all, in any order, with repeats
    seq = [rng.randrange(3) for _ in range(4)]
    one = lib.Validator(lax_digests=lax, **kw)
    for i in seq:
        m0 = len(one.log.messages)
        passed = watched(ctx, "validate_object (reused validator)", one.validate_object, dirs[i])
        got = (passed, mcodes(one.log.messages[m0:]), one.spec_version, one.id)
        ctx.check(got[0] == fresh[i][0], "reused validator gives another verdict", "%s, fresh %s", got, fresh[i])
        ctx.check(got[1] == fresh[i][1], "reused validator logs other codes", "%s, fresh %s", got, fresh[i])
        ctx.check(got[2:] == fresh[i][2:], "reused validator reports other properties", "%s, fresh %s", got[2:], fresh[i][2:])
    for d, b in zip(dirs, before):
        diff = snap_diff(b, snapshot_any(d))
        ctx.check(not diff, "validation changed the object", diff)


def snapshot_any(path):
    """Like monitors.snapshot, but for trees that hold anything."""
    out = {}
    for dp, dns, fns in os.walk(os.fsencode(path)):
        for n in dns + fns:
            p = os.path.join(dp, n)
            st = os.lstat(p)
            if os.path.islink(p):
                out[repr(p)] = repr(os.readlink(p))
            elif os.path.isdir(p):
                out[repr(p)] = "dir %o" % st.st_mode
            else:
                out[repr(p)] = "%d %d %o" % (st.st_size, st.st_mtime_ns, st.st_mode)
    return out


def do_inventory(ctx):
    rng = ctx.rng
    o = foreign.make(rng, ctx.tier, nv=rng.choice([1, 2, 3]), simple_paths=True)
    if rng.random() < 0.15:
        v = hostile.value(rng)
    else:
        v = hostile.mutate_json(rng, o.invs[-1], rng.choice([1, 1, 2, 4]))
    ctx.note("inventory", repr(v)[:3000].__hash__() if False else len(repr_safe(v)), ctx.index)
    lax = rng.random() < 0.4
    iv = lib.ocfl.InventoryValidator(lax_digests=lax)
    passed = watched(ctx, "InventoryValidator.validate", iv.validate, v)
    verdict(ctx, "inventory", passed, iv.log)
    ctx.count("inventory value " + ("valid" if passed else "invalid"))
    d = ctx.path("d")
    os.makedirs(d)
    f = os.path.join(d, rng.choice(["inventory.json", "x y.json", "\u00e9"]))
    try:
        data = hostile.encode(rng, v) if rng.random() < 0.8 else hostile.raw(rng)
    except RecursionError:
        data = b"[" * 900
    with open(f, "wb") as fh:
        fh.write(data)
    r = rng.random()
    if r < 0.03:
        os.remove(f)
    elif r < 0.05:
        os.remove(f)
        os.mkdir(f)
    elif r < 0.07:
        f = os.path.join(d, "no", "such")
    force = rng.choice([None, None, None, "1.0", "1.1"])
    res = []
    for _ in range(2):
        passed, val = watched(ctx, "validate_inventory", lib.ocfl.Object(lax_digests=lax).validate_inventory, f, force_spec_version=force)
        verdict(ctx, "standalone inventory", passed, val.log)
        res.append((passed, mcodes(val.log.messages)))
    ctx.check(res[0] == res[1], "second validation of an inventory differs", "%s", res)
    ctx.count("inventory file " + ("valid" if passed else "invalid"))


def repr_safe(v):
    try:
        return repr(v)
    except (RecursionError, ValueError):
        return "deep"


def do_prior(ctx):
    """Two inventories, each valid on its own, compared as root and prior version."""
    rng = ctx.rng
    o = foreign.make(rng, ctx.tier, nv=rng.choice([2, 3]), simple_paths=True)
    p = foreign.make(rng, ctx.tier, nv=rng.choice([1, 2, 3]), simple_paths=True)
    log = ValidationLogger()
    a = lib.ocfl.InventoryValidator(log=log)
    b = lib.ocfl.InventoryValidator(log=ValidationLogger())
    ctx.note("prior", ctx.index)
    if not ctx.call("validate", a.validate, o.invs[-1]):
        return
    other = rng.choice([p.invs[-1], o.invs[0], o.invs[-1]])
    ctx.call("validate", b.validate, other)
    n = log.num_errors
    r = watched(ctx, "validate_as_prior_version", a.validate_as_prior_version, b)
    ctx.check(isinstance(r, bool) and r == (log.num_errors == n), "prior version verdict disagrees with number of errors", "%s", r)


def do_root(ctx):
    rng = ctx.rng
    d = ctx.path("root")
    os.makedirs(d)
    spec = rng.choice(["1.0", "1.1", "1.1"])
    hostile.put(os.path.join(d, "0=ocfl_" + spec), ("ocfl_%s\n" % spec).encode(), False)
    if rng.random() < 0.7:
        name = rng.choice(["0002-flat-direct-storage-layout", "0003-hash-and-id-n-tuple-storage-layout", "nnnn-flat-quoted-storage-layout", "nnnn-tuple-tree-layout", "nnnn-uuid-quadtree", "other"])
        hostile.put(os.path.join(d, "ocfl_layout.json"), hostile.encode(rng, {"extension": name, "description": "x"}), False)
        if rng.random() < 0.7:
            os.makedirs(os.path.join(d, "extensions", name))
            cfg = {"extensionName": name, "digestAlgorithm": "sha256", "tupleSize": 3, "numberOfTuples": 3}
            if rng.random() < 0.5:
                cfg = hostile.mutate_json(rng, cfg, rng.choice([1, 2]))
            try:
                hostile.put(os.path.join(d, "extensions", name, "config.json"), hostile.encode(rng, cfg), False)
            except RecursionError:
                pass
    for k in range(rng.choice([0, 1, 2, 3])):
        p = os.path.join(d, *[gen.segment(rng, 0.2) for _ in range(rng.choice([1, 2]))])
        if os.path.lexists(p) or "/extensions/" in p + "/" or any(os.path.isfile(x) for x in (os.path.dirname(p),)):
            continue
        o = foreign.make(rng, ctx.tier, nv=rng.choice([1, 2]), simple_paths=True)
        foreign.write(o, p)
    for _ in range(rng.choice([1, 1, 2, 4])):
        what = hostile.mutate_tree(rng, d)
        ctx.log(what)
        ctx.sig.append(("root", what))
    before = snapshot_any(d)
    kw = {"validate_objects": rng.random() < 0.8, "check_digests": rng.random() < 0.7, "log_warnings": rng.random() < 0.5, "log_errors": True, "max_errors": rng.choice([100, 1, 0])}
    lax = rng.random() < 0.3
    spec_arg = rng.choice([None, None, "1.0", "1.1"])
    one = lib.ocfl.StorageRoot(root=d, lax_digests=lax, spec_version=spec_arg)
    res = []
    for k in range(3):
        s = one if k else lib.ocfl.StorageRoot(root=d, lax_digests=lax, spec_version=spec_arg)
        passed = watched(ctx, "validate storage root", s.validate, **kw)
        ctx.check(isinstance(passed, bool), "verdict is not a boolean: storage root", "%r", passed)
        if passed:
            ctx.check(s.log.num_errors == 0 and (not kw["validate_objects"] or s.good_objects == s.num_objects), "root valid in spite of errors", "%s", s.log.codes)
        else:
            ctx.check(s.log.num_errors > 0 or s.good_objects < s.num_objects, "root invalid without any error")
        ctx.call("status text of root", str, s.log)
        res.append((passed, mcodes(s.log.messages), s.num_objects, s.good_objects, sorted(x[0] for x in s.errors)))
    ctx.count("root " + ("valid" if res[0][0] else "invalid"))
    ctx.check(res[0] == res[1] == res[2], "second validation of a root differs", "%s", res)
    diff = snap_diff(before, snapshot_any(d))
    ctx.check(not diff, "validation changed the root", diff)


def do_place(ctx):
    """Paths that are not an object directory at all."""
    rng = ctx.rng
    d = ctx.path("x")
    kind = rng.choice(["none", "file", "empty", "link", "loop", "deep none"])
    ctx.note("place", kind)
    if kind == "file":
        hostile.put(d, hostile.raw(rng), False)
    elif kind == "empty":
        os.mkdir(d)
    elif kind == "link":
        os.symlink("nowhere", d)
    elif kind == "loop":
        os.symlink("x", d)
    elif kind == "deep none":
        d = os.path.join(d, "a", "b")
    passed, v = watched(ctx, "validate place " + kind, lib.validate, d)
    verdict(ctx, "place", passed, v.log)
    ctx.check(passed is False, "something that is no object is reported valid: " + kind)


def case(ctx):
    r = ctx.rng.random()
    if r < 0.45:
        do_object(ctx)
    elif r < 0.72:
        do_inventory(ctx)
    elif r < 0.76:
        do_prior(ctx)
    elif r < 0.97:
        do_root(ctx)
    else:
        do_place(ctx)
