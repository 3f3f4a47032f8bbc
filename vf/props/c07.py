"""C07: the validator accepts every conforming object."""
from vf import foreign, lib, oracle
from vf.common import HarnessError

ID = "C07"
LEVEL = "exploration"
QUICK, THOROUGH = 3600, 60000
MIN_DISTINCT = 200
RULE = ("Seeded random conforming objects written by an independent OCFL writer (specs 1.0/1.1 and mid-life upgrades, zero-padded and 10+ versions, sha512/sha256 "
        "and mid-life algorithm change, upper/mixed case digests, redundant copies, odd and unicode names, missing version inventories, logs/extensions, fixity blocks, "
        "five JSON layouts) validated through the real validator; non-trivial = every object, distinct by (features, versions, files, algorithms). "
        "A second stream follows every SHOULD and must produce no warning at all.")


def case(ctx):
    rng = ctx.rng
    strict = rng.random() < 0.2
    if strict:
        o = foreign.make(rng, ctx.tier, pads=foreign.WIDE, warn=False, ident="http://example.org/%d" % ctx.index)
        if any(f.startswith("padded") for f in o.features) or "sha256" in o.algs or "empty-content-dir" in o.features:
            strict = False
        if any(m["address"] and not m["address"].startswith(("mailto:", "https:")) for m in o.metas):
            strict = False
        if any(not any(p.startswith(v + "/") for p in o.content) for v in o.vdirs):
            strict = False    # a version without content: W003-type advice possible
    else:
        o = foreign.make(rng, ctx.tier, pads=foreign.WIDE, big=rng.random() < 0.05, extreme=ctx.index % 100 == 50, nv=rng.choice([60, 102]) if ctx.index % 600 == 300 else None)
    d = ctx.path("obj")
    foreign.write(o, d)
    bad = oracle.check_object(d)
    if bad:
        raise HarnessError("generator wrote a non-conforming object: %s" % bad[:3])
    ctx.note("features", ",".join(o.features))
    ctx.note("shape", len(o.vdirs), len(o.content), "/".join(sorted(set(o.algs))), "/".join(o.specs[:1] + o.specs[-1:]))
    for kw in ({}, {"check_digests": False}, {"log_warnings": False, "log_errors": False}):
        passed, v = ctx.call("validate", lib.validate, d, **kw)
        errs = lib.codes(v, "E")
        ctx.check(passed is True and not errs and v.log.num_errors == 0, "conforming object rejected " + ",".join(errs[:3]),
                  "kw=%s features=%s msgs=%s", kw, o.features, [v.log.codes[c] for c in errs[:3]])
        ctx.check(v.spec_version == o.spec, "wrong spec version reported", "%s != %s", v.spec_version, o.spec)
        if strict and not kw:
            w = lib.codes(v, "W")
            ctx.check(not w and v.log.num_warnings == 0, "warning on object following every SHOULD " + ",".join(w),
                      "features=%s %s", o.features, [v.log.codes[c] for c in w[:3]])
            ctx.count("strict objects checked for no warnings")
    # open-filesystem form, and the standalone inventory
    obj = ctx.call("open object", lib.ocfl.Object, path=d)
    passed, v = ctx.call("validate (open object)", obj.validate)
    ctx.check(passed is True, "conforming object rejected when opened by filesystem", str(v)[:300])
    passed, v = ctx.call("validate_inventory", lib.ocfl.Object().validate_inventory, d + "/inventory.json")
    ctx.check(passed is True, "conforming inventory rejected standalone", "%s", str(v)[:300])
    if len(o.vdirs[0]) <= 6 or o.vdirs[0] == "v1":   # wider names are validated but not read (pinned by a test)
        inv = ctx.call("parse_inventory", obj.parse_inventory)
        ctx.check(inv.id == o.id and inv.head == o.vdirs[-1] and inv.version_directories == o.vdirs, "parsed inventory differs from what is stored")
    iv = lib.ocfl.InventoryValidator()
    ctx.check(ctx.call("InventoryValidator", iv.validate, o.invs[-1]) is True, "InventoryValidator rejects conforming inventory", "%s", str(iv.log)[:300])
