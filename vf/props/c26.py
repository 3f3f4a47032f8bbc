"""C26: a failed or interrupted storage-root operation or bag export never passes for a complete one."""
import json
import os
import shutil

import bagit
from ocfl.bagger import bag_extracted_version

from vf import foreign, gen, lib, oracle
from vf.common import HarnessError
from vf.monitors import read_tree, snapshot, snap_diff
from vf.props import c13, c14, c04, c19

ID = "C26"
LEVEL = "fault_enumeration"
QUICK, THOROUGH = 320, 6000
MIN_DISTINCT = 60
RULE = ("Creation of a root (every layout, parameters or none, both specifications), addition of an object (independent writer: missing version inventories, logs, extensions, mixed algorithms) to a root that holds others, and "
        "export of a version as a bag are each recorded once, then repeated from the same start with an I/O error at, process death at, and a torn write at the k-th mutating file-system event, an I/O error at the k-th read or "
        "listing and a file-size limit: every k up to 40 events, else a sample. After each: success may be reported only for the complete result; anything else must be rejected by validation of root and object, or be "
        "complete; what was there before and the source must be unchanged; repeating the operation must succeed completely or be refused. Distinct by operation, layout, and position of the fault.")
ASSUMPTIONS = ["Faults are at operation granularity of the local file system, as for C04", "A bag left behind by a failed export may lack descriptive metadata (written by the bagit library), never payload; errors of directory listings inside the bagit library are left out", "Source objects have no empty directories but version directories"]


class Bench(c04.Bench):
    MOST = 40


class BagBench(Bench):
    """No errors of directory listings: the bagit library passes over them (os.walk)."""

    def fault_at(self, k, action, reads=False):
        return super().fault_at(k, lambda rec: None if rec["op"] == "list" else action(rec), reads)


def root_valid(ctx, d):
    s = lib.ocfl.StorageRoot(root=d)
    passed = ctx.call("validate root", s.validate)
    ctx.why = (s.log.messages, s.errors)
    return passed


def op_initialize(ctx):
    rng = ctx.rng
    parent = ctx.path("parent")
    os.makedirs(parent)
    with open(os.path.join(parent, "neighbour"), "wb") as fh:
        fh.write(b"n")
    d = os.path.join(parent, "root")
    name = rng.choice([None] + sorted(c13.NAMES))
    kind = c13.NAMES.get(name)
    spec = rng.choice(["1.0", "1.1"])
    cfg = {"0003": {"digestAlgorithm": rng.choice(["sha256", "sha512", "md5"]), "tupleSize": rng.choice([1, 2, 4]), "numberOfTuples": rng.choice([1, 3, 5])}, "tuple": {"tupleSize": rng.choice([2, 3, 6])}, "uuid": {"prefix": "x:"}}.get(kind)
    params = json.dumps(cfg) if cfg and rng.random() < 0.6 else None

    def run():
        lib.ocfl.StorageRoot(root=d, layout_name=name).initialize(spec_version=spec, layout_params=params)
    want = {}

    def expect(res, what):
        ctx.check(open(os.path.join(parent, "neighbour"), "rb").read() == b"n" and sorted(os.listdir(parent)) in (["neighbour"], ["neighbour", "root"]), "initialize changed something beside the root", what)
        now = read_tree(d) if os.path.isdir(d) else None
        if not want:
            if res != "ok":
                raise HarnessError("undisturbed initialize failed")
            want.update(now)
            decl = {"0=ocfl_" + spec} | ({"ocfl_layout.json"} if name else set()) | ({"extensions/%s/config.json" % c13.CANON[kind]} if cfg else set())
            ctx.check(set(now) == decl, "files of new root", "%s expected %s", sorted(now), sorted(decl))
        if res == "ok":
            ctx.check(now == want, "success reported though the root is not complete", "%s: %s", what, sorted(now or {}))
            ctx.check(root_valid(ctx, d) is True, "new root is not valid", what)
            return
        if now is None:
            ctx.count("left nothing")
            return
        if {p: b.strip() for p, b in now.items()} == {p: b.strip() for p, b in want.items()}:
            ctx.count("left complete")
            return
        ctx.check(root_valid(ctx, d) is False, "incomplete root passes validation", "%s: %s of %s", what, sorted(now), sorted(want))
        ctx.refused("use of an incomplete root", lib.StorageRootException, lib.ocfl.StorageRoot(root=d).object_path, "x:12345678-1234-1234-1234-123456789012")
        ctx.count("left rejected by validation")
        try:
            run()
        except lib.StorageRootException:
            ctx.count("repeat refused")
        else:
            ctx.check(read_tree(d) == want, "repeated initialize succeeded without a complete root", what)
    ctx.sig.append(("initialize", name, bool(params), spec))
    Bench(ctx, "initialize", run, d, expect).campaign()


def op_add(ctx):
    rng = ctx.rng
    kind = rng.choice(["0002", "0003", "quoted", "tuple", "uuid"])
    spec = rng.choice(["1.0", "1.1", "1.1"])
    d = ctx.path("root")
    lib.ocfl.StorageRoot(root=d, layout_name=c13.CANON[kind]).initialize(spec_version=spec)

    def ident(i):
        return {"uuid": "urn:uuid:7f7a6c7e-0000-4%03d-8000-0000000%05d" % (i, rng.randrange(99999)), "tuple": "ab%02dcd%02d" % (i, rng.randrange(99))}.get(kind, "obj-%d-%d" % (i, rng.randrange(10 ** 6)))
    ids = []
    for i in range(rng.choice([0, 1, 2])):
        o = foreign.make(rng, ctx.tier, nv=1, simple_paths=True, ident=ident(i), spec_mix=False)
        if o.spec > spec:
            continue
        p = ctx.path("pre%d" % i)
        foreign.write(o, p)
        ids.append(ctx.call("add", lib.ocfl.StorageRoot(root=d).add, p))
    for _ in range(50):
        o = foreign.make(rng, ctx.tier, nv=rng.choice([1, 2, 3]), simple_paths=True, ident=ident(7))
        if o.spec <= spec:
            break
    else:
        return
    src = ctx.path("src")
    foreign.write(o, src)
    if rng.random() < 0.4:
        foreign_extra(rng, src)
    if oracle.check_object(src):
        raise HarnessError("source not conforming: %s" % oracle.check_object(src)[:2])
    files = read_tree(src)
    source = snapshot(src)
    before = snapshot(d)

    def run():
        return lib.ocfl.StorageRoot(root=d).add(src)
    dest = []

    def expect(res, what):
        ctx.check(snapshot(src) == source, "add changed its source", what)
        if not dest:
            got = lib.ocfl.StorageRoot(root=d).object_path(o.id)
            dest.append(got)
        path = os.path.join(d, dest[0])
        now = snapshot(d)
        lost = {k for k in before if now.get(k) != before[k]}
        ctx.check(not lost, "add damaged what was in the root", "%s: %s", what, sorted(lost)[:3])
        new = {k for k in now if k not in before}
        stray = {k for k in new if k != dest[0] and not k.startswith(dest[0] + "/") and not (dest[0].startswith(k + "/") and now[k] == "dir")}
        ctx.check(not stray, "add left files elsewhere in the root", "%s: %s", what, sorted(stray)[:3])
        have = read_tree(path) if os.path.isdir(path) else None
        if res == "ok":
            ctx.check(have == files, "success reported though the object is not complete", "%s: %s", what, sorted(set(files) ^ set(have or {}))[:4])
            ctx.check(root_valid(ctx, d) is True, "root with added object is not valid", "%s: %s", what, ctx.why)
            return
        if not new:
            ctx.count("left nothing")
            ctx.check(root_valid(ctx, d) is True, "root not valid though nothing changed", what)
            return
        if have == files:
            ctx.count("left complete")
            return
        if os.path.isdir(path):
            passed, _ = ctx.call("validate", lib.validate, path)
            ctx.check(passed is False, "incomplete added object passes validation", "%s: missing %s", what, sorted(set(files) - set(have))[:4])
        ctx.check(root_valid(ctx, d) is False, "root with an incomplete added object passes validation", "%s: missing %s", what, sorted(set(files) - set(have or {}))[:4])
        ctx.count("left rejected by validation")
        try:
            run()
        except lib.StorageRootException:
            ctx.count("repeat refused")
        else:
            ctx.check(read_tree(path) == files, "repeated add succeeded without a complete object", what)
    ctx.sig.append(("add", kind, spec, tuple(o.features), len(files)))
    Bench(ctx, "add", run, d, expect).campaign()


def foreign_extra(rng, src):
    """Things of no importance for validity that an addition must carry over all the same."""
    for n in rng.sample(["logs/a.log", "logs/deep/b.log", "extensions/0005-mutable-head/x", "extensions/0001-digest-algorithms/config.json"], rng.choice([1, 2])):
        p = os.path.join(src, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if not os.path.lexists(p):
            with open(p, "wb") as fh:
                fh.write(b"{}")


def op_bag(ctx):
    rng = ctx.rng
    o = foreign.make(rng, ctx.tier, nv=rng.choice([1, 2]), plain=True)
    src = ctx.path("obj")
    foreign.write(o, src)
    n = rng.randrange(len(o.vdirs))
    v = o.vdirs[n]
    want = oracle.reconstruct(src, v)
    source = snapshot(src)
    d = ctx.path("bag")

    def run():
        obj = lib.ocfl.Object(path=src)
        meta = obj.extract(src, v, d)
        bag_extracted_version(d, meta)

    def expect(res, what):
        ctx.check(snapshot(src) == source, "bag export changed the object", what)
        ok, why = False, "validation"
        if os.path.isdir(d):
            try:
                bagit.Bag(d).validate()
                ok = True
            except (bagit.BagError, OSError, ValueError) as e:
                ok, why = False, "%r %s %s" % (e, getattr(e, "details", None), sorted(want))
        if ok:
            got = {p[5:]: b for p, b in read_tree(d).items() if p.startswith("data/")}
        if res == "ok":
            ctx.check(ok, "success reported though the bag is not valid", "%s: %s", what, why)
            ctx.check(got == want, "success reported though the bag does not hold the version", "%s: %s", what, sorted(set(got) ^ set(want))[:4])
        elif ok:
            ctx.check(got == want, "incomplete bag is valid", "%s: %s", what, sorted(set(got) ^ set(want))[:4])
            ctx.count("left complete")
        else:
            ctx.count("left rejected by validation" if os.path.isdir(d) else "left nothing")
    ctx.sig.append(("bag", len(want), tuple(o.features)))
    BagBench(ctx, "bag export", run, d, expect).campaign()


def case(ctx):
    r = ctx.rng.random()
    if r < 0.3:
        op_initialize(ctx)
    elif r < 0.8:
        op_add(ctx)
    else:
        op_bag(ctx)
