"""C02: everything the library writes is a conforming object with the requested settings."""
import json
import os
import time

from vf import lib, oracle
from vf.session import Session

ID = "C02"
LEVEL = "exploration"
QUICK, THOROUGH = 900, 20000
MIN_DISTINCT = 100
RULE = ("Random histories under random configurations (digest, content directory, spec, fixity, normalization, dedupe, forward delta, digest/fixity changes between versions), "
        "each step followed by the independent conformance checker on the whole object, the library's own validation, and a comparison of the stored settings and of every manifest and "
        "fixity digest with values computed by hashlib. Distinct by configuration, step kinds, algorithm history and fixity set.")


def check_settings(ctx, s, st):
    d = s.dir
    with open(os.path.join(d, "inventory.json"), "rb") as fh:
        raw = fh.read()
    inv = json.loads(raw.decode("utf8"))
    ctx.check(inv["id"] == s.id, "stored identifier differs", "%r != %r", inv["id"], s.id)
    ctx.check(inv["type"] == "https://ocfl.io/%s/spec/#inventory" % s.spec, "stored type is not the requested specification version", "%s", inv["type"])
    ctx.check(os.path.isfile(os.path.join(d, "0=ocfl_object_" + s.spec)), "declaration is not that of the requested specification version", "%s", sorted(os.listdir(d)))
    ctx.check(inv["digestAlgorithm"] == s.alg, "stored digest algorithm differs", "%s != %s after %s", inv["digestAlgorithm"], s.alg, st.kind)
    ctx.check(inv.get("contentDirectory", "content") == s.cfg["content_directory"], "stored content directory differs", "%s", inv.get("contentDirectory"))
    ctx.check(inv["head"] == "v%d" % st.n, "head is not the version written", "%s", inv["head"])
    fx = inv.get("fixity", {})
    ctx.check(set(k for k, b in fx.items() if b) <= s.fixity, "fixity algorithms beyond those requested", "%s not in %s", sorted(fx), sorted(s.fixity))
    paths = sorted(p for ps in inv["manifest"].values() for p in ps)
    data = {}
    for p in paths:
        with open(os.path.join(d, p), "rb") as fh:
            data[p] = fh.read()
    for dg, ps in inv["manifest"].items():
        for p in ps:
            ctx.check(oracle.digest(data[p], s.alg) == dg, "manifest digest is not the digest of the file", "%s", p)
    for a in s.fixity:
        got = {}
        for dg, ps in fx.get(a, {}).items():
            for p in ps:
                ctx.check(p not in got, "content path listed twice in fixity", "%s %s", a, p)
                got[p] = dg
        miss = [p for p in paths if p not in got]
        ctx.check(not miss, "requested fixity not recorded for every content file", "%s lacks %s after %s", a, miss[:3], st.kind)
        for p, dg in got.items():
            ctx.check(p in data and oracle.digest(data[p], a) == dg, "fixity digest is not the digest of the file", "%s %s", a, p)
            ctx.count("fixity digests checked")


def case(ctx):
    s = Session(ctx, odd=0.25)
    s.pool.extreme = ctx.index % 40 == 20
    kinds, algs = [], []
    t0 = time.time()
    for st in s.steps():
        kinds.append(st.kind)
        algs.append(s.alg)
        ctx.log("%s %s" % (st.kind, st.opts))
        inv = ctx.call(st.kind, st.run)
        bad = oracle.check_object(s.dir)
        ctx.check(not bad, "written object does not conform " + (bad[0].split()[0] if bad else ""), "%s after %s: %s (%s)", bad[:3], st.kind, st.opts, s.describe())
        check_settings(ctx, s, st)
        passed, v = ctx.call("validate", lib.validate, s.dir)
        ctx.check(passed is True and not lib.codes(v, "E"), "own validation rejects what was written", "%s after %s", str(v)[:300], st.kind)
        ctx.check(v.spec_version == s.spec, "validation reports another specification version", "%s", v.spec_version)
        if inv is not None:
            with open(os.path.join(s.dir, "inventory.json"), encoding="utf-8") as fh:
                stored = json.load(fh)
            ctx.check(json.loads(inv.as_json()) == stored, "inventory returned differs from the one stored", "%s", st.kind)
        ctx.count("objects checked")
        # A timestamp made up by the library is of now
        made = s.metas[st.n - 1]["created"] is None
        if made and st.new_version is not False:
            ctx.count("library made timestamps")
    ctx.note("config", s.cfg["digest_algorithm"], s.cfg["content_path_normalization"], s.cfg["dedupe"], s.cfg["forward_delta"], s.cfg["content_directory"], s.spec)
    ctx.note("algorithms", "/".join(a for i, a in enumerate(algs) if i == 0 or algs[i - 1] != a))
    ctx.note("kinds", "+".join(sorted(set(kinds))))
    ctx.note("fixity", ",".join(sorted(s.fixity)))
    ctx.count("seconds of writing x1000", int(1000 * (time.time() - t0)))
