"""C17: editing a new version yields exactly the edited state."""
import copy
import os
import shutil

from vf import foreign, gen, lib, oracle
from vf.monitors import read_tree, snap_diff, snapshot, write_tree
from vf.session import Session

ID = "C17"
LEVEL = "exploration"
QUICK, THOROUGH = 6000, 300000
MIN_DISTINCT = 300
RULE = ("A new version is started on an object built by a library session or by the independent writer (or as a first version without an object), with random configuration, changed digest algorithm or fixity types, and carried or empty state; then 1-30 edits: "
        "additions with generated or explicit content paths, deletions, renames, adding back, and about a third invalid edits (unknown path, used path, file/directory conflict, unsafe path, bad content path, missing source). After every edit the state, manifest, pending copies, "
        "fixity and difference are compared with a dictionary model; refused edits must leave all unchanged; the object on disk must not change until the version is written, and after that is checked, validated and extracted. Distinct by edit sequence.")

UNSAFE = ["", ".", "..", "../x", "a/../b", "./a", "a/.", "/abs", "a//b", "a/", "//", "a/..", "/", "../../x"]


class Model:
    def __init__(self, state, old):
        self.state = dict(state)       # logical path -> bytes, new version
        self.old = dict(old)           # content path -> bytes, earlier versions
        self.new = {}                  # content path -> bytes, this version
        self.src = {}                  # content path -> source path


def flat(manifest):
    return {p: d for d, ps in manifest.items() for p in ps}


def compare(ctx, nv, m, prev, last):
    inv = nv.inventory
    alg = inv.digest_algorithm
    dg = {}

    def digest(b):
        if b not in dg:
            dg[b] = oracle.digest(b, alg)
        return dg[b]
    v = inv.data["versions"][inv.head]
    ctx.check(flat(v["state"]) == {p: digest(b) for p, b in m.state.items()} and sum(map(len, v["state"].values())) == len(m.state),
              "state differs from the edits", "after %s: %s expected %s", last, sorted(flat(v["state"])), sorted(m.state))
    ctx.check(all(v["state"].values()), "state lists digest without path", "after %s", last)
    got = flat(inv.data["manifest"])
    want = {p: digest(b) for d in (m.old, m.new) for p, b in d.items()}
    ctx.check(got == want and sum(map(len, inv.data["manifest"].values())) == len(want), "manifest differs from the content in use", "after %s: extra %s missing %s", last, sorted(set(got) - set(want))[:4], sorted(set(want) - set(got))[:4])
    ctx.check(all(inv.data["manifest"].values()), "manifest lists digest without path", "after %s", last)
    ctx.check(dict(nv.files_to_copy) == m.src, "pending copies differ from the new content", "after %s: %s expected %s", last, nv.files_to_copy, m.src)
    for a, blk in inv.fixity.items():
        if a not in oracle.HEXLEN:
            continue
        f = flat(blk)
        bad = set(f) - set(want)
        ctx.check(not bad, "fixity lists content that is not in the manifest", "after %s: %s %s", last, a, sorted(bad)[:3])
        miss = set(m.new) - set(f)
        ctx.check(not miss, "fixity lacks new content", "after %s: %s %s", last, a, sorted(miss)[:3])
        for p in m.new:
            ctx.check(f[p].lower() == oracle.digest(m.new[p], a), "fixity of new content wrong", "%s %s", a, p)
    d = ctx.call("diff_with_previous", nv.diff_with_previous)
    exp = {("A", digest(b), p) for p, b in m.state.items() if prev is None or prev.get(p) != b}
    exp |= {("D", digest(b), p) for p, b in (prev or {}).items() if m.state.get(p) != b}
    ctx.check(len(d) == len(set(d)) and {tuple(x) for x in d} == exp, "difference from previous version wrong", "after %s: %s expected %s", last, sorted((x[0], x[2]) for x in d), sorted((x[0], x[2]) for x in exp))


def edit(ctx, nv, m, files, norm):
    """One edit, valid or not. Returns a description."""
    rng = ctx.rng
    inv = nv.inventory
    head, cd = inv.head, nv.content_directory
    prefix = head + "/" + cd + "/"
    allc = set(m.old) | set(m.new)

    def refused(what, fn, *a, excs=lib.NewVersionException):
        before, pend = copy.deepcopy(inv.data), dict(nv.files_to_copy)
        ctx.refused(what, excs, fn, *a)
        ctx.check(inv.data == before and dict(nv.files_to_copy) == pend, "refused edit changed the new version", "%s %s", what, a)
        ctx.count("refused: " + what)
        return "refused " + what

    def wrong_name():
        """A logical path that may not be added, and why."""
        r = rng.random()
        ks = sorted(m.state)
        if ks and r < 0.3:
            return rng.choice(ks), "used"
        if ks and r < 0.65:
            k = rng.choice(ks)
            if "/" in k and rng.random() < 0.5:
                parts = k.split("/")
                return "/".join(parts[:rng.randrange(1, len(parts))]), "directory"
            return k + "/" + rng.choice(["x", "a/b"]), "below a file"
        return rng.choice(UNSAFE), "unsafe"
    r = rng.random()
    if r < 0.36:                                   # add
        f = rng.choice(sorted(files))
        lp = gen.new_path(rng, m.state)
        cp = None
        if rng.random() < 0.35:
            cp = prefix + gen.new_path(rng, [p[len(prefix):] for p in m.new])
        before = set(flat(inv.data["manifest"]))
        args = (f, lp) if cp is None and rng.random() < 0.5 else (f, lp, cp)
        ctx.call("add", nv.add, *args)
        data = files[f]
        cur = data in m.new.values()
        old = data in m.old.values()
        m.state[lp] = data
        if (not old and not cur) or (not cur and not nv.forward_delta) or (cur and not nv.dedupe):
            new = set(flat(inv.data["manifest"])) - before
            ctx.check(len(new) == 1, "addition did not store its content once", "%s: %s", args, sorted(new))
            p = new.pop()
            ctx.check(p.startswith(prefix) and (cp is None or p == cp), "content path of addition wrong", "%s: %s", args, p)
            ctx.check(not gen.conflict(p, allc) and not any(s in ("", ".", "..") for s in p.split("/")), "content path conflicts with others or is unsafe", "%s", p)
            m.new[p], m.src[p] = data, f
        return "add%s" % ("" if cp is None else " explicit")
    if r < 0.5 and m.state:
        lp = rng.choice(sorted(m.state))
        ctx.call("delete", nv.delete, lp)
        data = m.state.pop(lp)
        if data not in m.state.values():
            for p in [p for p in m.new if m.new[p] == data]:
                del m.new[p], m.src[p]
        return "delete"
    if r < 0.66 and m.state:
        lp = rng.choice(sorted(m.state))
        others = [p for p in m.state if p != lp]
        to = gen.new_path(rng, others)
        if rng.random() < 0.25 and not gen.conflict(lp + "/x", others):
            to = lp + "/" + gen.segment(rng)         # becomes a directory: allowed as the file goes
        if to == lp:
            return "none"
        ctx.call("rename", nv.rename, lp, to)
        m.state[to] = m.state.pop(lp)
        return "rename"
    what = rng.choice(["add", "add", "rename to", "rename to", "rename from", "delete", "content path", "content path", "source"])
    f = rng.choice(sorted(files))
    if what == "add":
        lp, why = wrong_name()
        return refused("add " + why, nv.add, f, lp)
    if what == "rename to":
        if not m.state:
            return "none"
        src = rng.choice(sorted(m.state))
        lp, why = wrong_name()
        if why != "used" and why != "unsafe" and not gen.conflict(lp, [p for p in m.state if p != src]):
            return "none"
        return refused("rename to " + why, nv.rename, src, lp)
    unknown = rng.choice([gen.new_path(rng, m.state), "", "nope"] + [p + "/" for p in sorted(m.state)[:2]] + [os.path.dirname(p) for p in sorted(m.state)[:2]])
    if what == "rename from":
        if unknown in m.state:
            return "none"
        return refused("rename of unknown", nv.rename, unknown, gen.new_path(rng, m.state))
    if what == "delete":
        if unknown in m.state:
            return "none"
        return refused("delete of unknown", nv.delete, unknown)
    if what == "source":
        return refused("add of missing source", nv.add, "no-such-file-%d" % rng.randrange(1000), gen.new_path(rng, m.state), excs=(OSError, lib.NewVersionException, lib.FswException))
    bad = [head + "/x", "v0/" + cd + "/x", cd + "/x", "x", head + "/" + cd, head + "/" + cd + "x/y", "../" + prefix + "x", "", prefix, "/" + prefix + "x"]
    bad += [prefix + u for u in UNSAFE if u]
    bad += sorted(m.old)[:3] + sorted(m.new)[:3]
    for p in sorted(m.new)[:3]:
        bad += [p + "/x"] + ([os.path.dirname(p)] if p.count("/") > 2 else [])
    return refused("add with bad content path", nv.add, f, gen.new_path(rng, m.state), rng.choice(bad))


def case(ctx):
    rng = ctx.rng
    kind = rng.choice(["session", "session", "foreign", "foreign", "first"])
    files = gen.tree(rng, gen.Pool(rng, False), n=rng.choice([2, 3, 5, 8]))
    d = ctx.path("obj")
    metas = states = None
    if kind == "session":
        s = Session(ctx, big=False, nv=rng.choice([1, 1, 2, 3]))
        for st in s.steps():
            ctx.call(st.kind, st.run)
        states, metas, oid, vdirs = s.states, s.metas, s.id, ["v%d" % (k + 1) for k in range(len(s.states))]
        d = s.dir
        alg0 = s.alg
    elif kind == "foreign":
        o = foreign.make(rng, ctx.tier, nv=rng.choice([1, 2, 3]))
        foreign.write(o, d)
        states, metas, oid, vdirs = o.states, o.metas, o.id, o.vdirs
        alg0 = o.algs[-1]
    # Some sources repeat what the object holds already
    if states:
        pool = sorted({b for s in states for b in s.values()})
        for b in rng.sample(pool, min(len(pool), rng.choice([0, 1, 2]))):
            files[gen.new_path(rng, files)] = b
    # Names with one source below the generated content of another are wanted too
    srcdir = ctx.path("edit-src")
    write_tree(srcdir, files)
    cfg = {"forward_delta": rng.random() < 0.6, "dedupe": rng.random() < 0.6, "content_path_normalization": rng.choice(["uri", "md5", None])}
    mt = gen.meta(rng)
    norm = cfg["content_path_normalization"]
    if kind == "first":
        oid = gen.object_id(rng)
        cd = rng.choice([None, "content", "data"])
        fix = rng.sample(gen.FIXITY, rng.choice([0, 0, 1, 2]))
        nv = ctx.call("first_version", lib.ocfl.NewVersion.first_version, srcdir=srcdir, identifier=oid, digest_algorithm=rng.choice([None, "sha256", "sha512"]), content_directory=cd,
                      dedupe=cfg["dedupe"], fixity=fix, content_path_normalization=norm, metadata=lib.vmeta(mt))
        m, prev, ob, before = Model({}, {}), None, None, None
        nv.forward_delta = cfg["forward_delta"]
        head = "v1"
        ctx.check(set(nv.inventory.fixity) == set(fix), "fixity types of first version wrong")
    else:
        before = snapshot(d)
        raw = lib.ocfl.Inventory(filepath=os.path.join(d, "inventory.json")).data
        old = {}
        for p in flat(raw["manifest"]):
            with open(os.path.join(d, p), "rb") as fh:
                old[p] = fh.read()
        carry = rng.random() < 0.75
        alg = None if rng.random() < 0.7 else rng.choice(["sha256", "sha512"])
        fix = None if rng.random() < 0.7 else rng.sample(gen.FIXITY, rng.choice([0, 1, 2]))
        ob = lib.ocfl.Object(**cfg)
        width = len(vdirs[-1]) - 1 if vdirs[-1][1] == "0" else None
        head = "v%d" % (len(vdirs) + 1) if width is None else "v%0*d" % (width, len(vdirs) + 1)
        kw = dict(objdir=d, srcdir=srcdir, digest_algorithm=alg, fixity=fix, metadata=lib.vmeta(mt), carry_content_forward=carry)
        if rng.random() < 0.15:        # edits that are abandoned count for nothing
            x = ctx.call("start_new_version", ob.start_new_version, **kw)
            mm = Model(states[-1] if carry else {}, old)
            for _ in range(3):
                edit(ctx, x, mm, files, norm)
            ctx.sig.append(("abandoned",))
        nv = ctx.call("start_new_version", ob.start_new_version, **kw)
        prev = states[-1]
        m = Model(prev if carry else {}, old)
        if fix is not None:
            ctx.check(set(nv.inventory.fixity) == set(fix), "fixity types of new version wrong", "%s expected %s", sorted(nv.inventory.fixity), fix)
        ctx.sig.append((carry, alg, bool(fix)))
    ctx.note("start", kind, cfg["forward_delta"], cfg["dedupe"], norm)
    ctx.check(nv.inventory.head == head, "new version has wrong name", "%s expected %s", nv.inventory.head, head)
    base = {v: copy.deepcopy(b) for v, b in nv.inventory.data["versions"].items() if v != head}
    compare(ctx, nv, m, prev, "start")
    for _ in range(rng.choice([1, 2, 4, 8, 15, 30])):
        what = edit(ctx, nv, m, files, norm)
        ctx.log(what)
        ctx.count("edit " + what)
        ctx.sig.append((what,))
        compare(ctx, nv, m, prev, what)
    setters = rng.random() < 0.3
    if setters:
        mt = gen.meta(rng, complete=True)
        nv.created, nv.message, nv.user_name, nv.user_address = mt["created"], mt["message"], mt["name"], mt["address"]
    want_addr = mt["address"] if mt["name"] is not None else None
    ctx.check((nv.created, nv.message, nv.user_name, nv.user_address) == (mt["created"], mt["message"], mt["name"], want_addr), "metadata of new version wrong", "%s", mt)
    ctx.check({v: b for v, b in nv.inventory.data["versions"].items() if v != head} == base, "edits changed an earlier version")
    errs, _ = oracle.check_inventory(nv.inventory.data)
    ctx.check(not errs, "edited inventory does not conform", "%s", errs[:3])
    if ob is None:
        return
    ctx.check(not snap_diff(before, snapshot(d)), "object changed before the new version was written", "%s", snap_diff(before, snapshot(d)))
    inv = ctx.call("write_new_version", ob.write_new_version, nv)
    ctx.check(inv.head == head, "inventory returned is of another version")
    errs = oracle.check_object(d)
    ctx.check(not errs, "object written does not conform", "%s", errs[:3])
    ok, val = lib.validate(d)
    ctx.check(ok, "object written is not valid", "%s", lib.codes(val))
    for k, st in enumerate(list(states) + [m.state]):
        vd = (list(vdirs) + [head])[k]
        ctx.check(oracle.reconstruct(d, vd) == st, "version of object written differs from the edited state", "%s", vd)
    out = ctx.path("out")
    md = ctx.call("extract", lib.ocfl.Object().extract, d, head, out)
    ctx.check(read_tree(out) == m.state, "extracted version differs from the edited state")
    ctx.check((md.id, md.created, md.message, md.name, md.address) == (oid, mt["created"], mt["message"], mt["name"], want_addr), "metadata of written version wrong", "%s", vars(md))
    onv = os.path.join(d, head)
    have = {os.path.relpath(os.path.join(r, f), d) for r, _, fs in os.walk(os.path.join(onv, nv.content_directory)) for f in fs}
    ctx.check(have == set(m.new), "files stored in the new version differ from the pending copies", "%s", sorted(have ^ set(m.new))[:4])
    ctx.check(read_tree(srcdir) == files, "sources changed")
    shutil.rmtree(out)
