"""C24: objects written by other software can be updated without loss."""
import json
import os

from vf import foreign, fupdate, gen, lib, oracle
from vf.monitors import FS, read_tree, snapshot, snap_diff

ID = "C24"
LEVEL = "exploration"
QUICK, THOROUGH = 1500, 40000
MIN_DISTINCT = 300
RULE = ("Objects from the independent writer (upper and mixed case digests, zero padding of 2 to 10 digits, missing version inventories, mixed digest algorithms, custom content directory, specification 1.0 and upgrades, "
        "redundant copies, fixity, logs, extensions, any JSON form), each updated one to three times by every update route and random options. An update is either refused, with the object byte for byte "
        "unchanged, or must leave an object that the independent checker and the library's validation accept, with every earlier version directory byte for byte unchanged, every earlier version reading back exactly (by the "
        "checker and by extraction), earlier metadata blocks unchanged, the next version name in the object's own style, and the same identifier and content directory. Distinct by object features, update kinds and options.")


def raw_meta(block):
    return {k: v for k, v in block.items() if k != "state"}


def case(ctx):
    rng = ctx.rng
    o = foreign.make(rng, ctx.tier, big=rng.random() < 0.04, pads=[2, 2, 3, 4, 5, 5, 6, 10])
    d = ctx.path("obj")
    foreign.write(o, d)
    errs = oracle.check_object(d)
    if errs:
        raise AssertionError("writer made a non-conforming object: %s" % errs)
    ctx.note("features", tuple(o.features))
    inv0 = o.invs[-1]
    kinds = []
    for step in range(rng.choice([1, 1, 2, 3])):
        u = fupdate.plan(ctx, o, d, "src%d" % step)
        kinds.append(u.kind)
        ctx.log("update %s %s" % (u.kind, u.opts))
        before = snapshot(d)
        old_inv = json.loads(open(os.path.join(d, "inventory.json"), "rb").read().decode("utf8"))
        FS.start()
        try:
            ctx.stats["calls"] += 1
            try:
                u.run()
                refused = None
            except (lib.REFUSALS + (ValueError,)) as e:
                refused = e
            except Exception as e:  # pylint: disable=broad-except
                ctx.fail("update raised %s" % type(e).__name__, "%s of object with %s: %s" % (u.kind, o.features, str(e)[:200]))
        finally:
            FS.stop()
        after = snapshot(d)
        want = fupdate.next_vdir(o.vdirs)
        if refused is not None:
            ctx.check(before == after, "refused update changed the object", "%s: %s", refused, snap_diff(before, after))
            ctx.count("updates refused (%s)" % ("padding exhausted" if want is None else str(refused)[:40]))
            break
        ctx.check(want is not None, "update past the zero-padded range accepted", "%s", o.vdirs[-1])
        ctx.count("updates of foreign objects")
        # earlier directories and everything outside the root inventory unchanged
        for k in sorted(set(before) | set(after)):
            if k == want or k.startswith(want + "/") or (os.path.dirname(k) == "" and k.startswith("inventory.json")):
                continue
            ctx.check(before.get(k) == after.get(k), "update changed an existing file of a foreign object", "%s: %s (%s -> %s)", u.kind, k, before.get(k), after.get(k))
        errs = oracle.check_object(d)
        ctx.check(not errs, "updated object does not conform", "%s of object with %s: %s", u.kind, o.features, errs[:3])
        passed, v = ctx.call("validate", lib.validate, d)
        ctx.check(passed, "library rejects the updated object", "%s: %s", u.kind, lib.codes(v, "E"))
        inv = json.loads(open(os.path.join(d, "inventory.json"), "rb").read().decode("utf8"))
        ctx.check(list(sorted(inv["versions"])) == sorted(o.vdirs + [want]) and inv["head"] == want, "version numbering does not continue", "%s then %s", o.vdirs[-1], inv["head"])
        ctx.check(inv["id"] == o.id, "identifier changed", "%r -> %r", o.id, inv["id"])
        ctx.check(inv.get("contentDirectory") == inv0.get("contentDirectory"), "content directory changed", "%r -> %r", inv0.get("contentDirectory"), inv.get("contentDirectory"))
        ctx.check(inv["type"] == old_inv["type"], "specification version changed without request", "%r -> %r", old_inv["type"], inv["type"])
        ctx.check(inv["digestAlgorithm"] == u.alg, "requested digest algorithm not used", "%r", inv["digestAlgorithm"])
        for vd in o.vdirs:
            ctx.check(raw_meta(inv["versions"][vd]) == raw_meta(old_inv["versions"][vd]), "metadata of an earlier version changed", "%s: %r -> %r", vd,
                      raw_meta(old_inv["versions"][vd]), raw_meta(inv["versions"][vd]))
        b = inv["versions"][want]
        got = {"created": b.get("created"), "message": b.get("message"), "name": b.get("user", {}).get("name"), "address": b.get("user", {}).get("address")}
        ctx.check(got == u.meta, "metadata of the new version is not what was supplied", "%r / %r", u.meta, got)
        o.vdirs.append(want)
        o.states.append(u.state)
        o.metas.append(u.meta)
        o.algs.append(u.alg)
        for vd, st in zip(o.vdirs, o.states):
            ctx.check(oracle.reconstruct(d, vd, inv) == st, "version content changed or lost", "%s after %s", vd, u.kind)
        # one version through the library's own reading
        k = rng.randrange(len(o.vdirs))
        out = ctx.path("out%d" % step)
        ctx.call("extract", lib.ocfl.Object().extract, d, o.vdirs[k], out)
        ctx.check(read_tree(out) == o.states[k], "version does not extract as it was", "%s", o.vdirs[k])
        # content of the new version is in the object's own content directory
        for ps in inv["manifest"].values():
            for p in ps:
                if p.startswith(want + "/"):
                    ctx.check(p.startswith(want + "/" + o.content_dir + "/"), "new content outside the content directory", "%s", p)
        ctx.note("opts", u.alg, u.opts["fixity"] is None, u.opts["content_path_normalization"])
    ctx.note("kinds", "+".join(kinds))
    ctx.note("versions", len(o.vdirs))
