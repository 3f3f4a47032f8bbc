"""C01: every stored version reads back exactly as supplied."""
import json
import os
import shutil
import time

from vf import gen, lib, oracle
from vf.monitors import read_tree
from vf.session import Session, memory, memory_tree

ID = "C01"
LEVEL = "exploration"
QUICK, THOROUGH = 700, 14000
MIN_DISTINCT = 100
RULE = ("Random histories (1-21 versions) written by create, build and six kinds of update under random configurations with odd, unicode and conflicting-looking names, "
        "repeated and near-duplicate contents, sizes around internal buffers; every eighth object, its sources and destinations are in another file system than the local one. After writing, every version (all in short histories, sampled in long ones) is extracted whole and file by file "
        "and compared with the supplied bytes and metadata; the stored root inventory is decoded independently too. Distinct by configuration, step kinds and version count.")


def same_meta(ctx, got, want, t0, what):
    ctx.check(got["message"] == want["message"], "message differs", "%s: %r != %r", what, got["message"], want["message"])
    ctx.check(got["name"] == want["name"], "user name differs", "%s: %r != %r", what, got["name"], want["name"])
    ctx.check(got["address"] == want["address"], "user address differs", "%s: %r != %r", what, got["address"], want["address"])
    if want["created"] is None:
        ctx.check(oracle.created_ok(got["created"] or "") is True, "created missing or malformed", "%s: %r", what, got["created"])
    else:
        ctx.check(got["created"] == want["created"], "created differs", "%s: %r != %r", what, got["created"], want["created"])


def leaf_dirs(path):
    return [d for d, dirs, files in os.walk(path) if not dirs and not files and d != path]


def check_version(ctx, s, k):
    rng = ctx.rng
    vdir = "v%d" % (k + 1)
    want = s.states[k]
    dst = ctx.path("out")
    shutil.rmtree(dst, ignore_errors=True)
    pre = rng.random() < 0.2
    if pre:
        os.makedirs(dst)
    name = "head" if k == len(s.states) - 1 and rng.random() < 0.5 else vdir
    src = s.url if s.url and rng.random() < 0.8 else s.dir
    if s.url and rng.random() < 0.6:
        u = "memory://%s/out" % s.bucket
        if memory().exists("/%s/out" % s.bucket):
            memory().rm("/%s/out" % s.bucket, recursive=True)
        md = ctx.call("extract", lib.ocfl.Object().extract, src, name, u + rng.choice(["", "", "/"]))
        got = memory_tree(u)
        os.makedirs(dst, exist_ok=True)
        ctx.count("versions extracted to memory")
    else:
        md = ctx.call("extract", lib.ocfl.Object().extract, src, name, dst)
        got = read_tree(dst)
    ctx.count("versions extracted")
    ctx.count("files compared", len(want))
    if got != want:
        miss, extra = sorted(set(want) - set(got)), sorted(set(got) - set(want))
        diff = sorted(p for p in want if p in got and want[p] != got[p])
        ctx.fail("extracted version differs from what was supplied", "%s missing %s extra %s differing %s (%s)" % (vdir, miss[:3], extra[:3], diff[:3], s.describe()))
    ctx.check(True, "")
    ctx.check(not leaf_dirs(dst), "extraction left empty directories", leaf_dirs(dst)[:2])
    same_meta(ctx, vars(md), s.metas[k], None, "extract " + vdir)
    ctx.check(md.id == s.id and md.version == vdir, "extract returned wrong identity", "%r %r", md.id, md.version)
    for lp in rng.sample(sorted(want), min(2, len(want))):
        d2 = ctx.path("one")
        shutil.rmtree(d2, ignore_errors=True)
        if rng.random() < 0.3:
            os.makedirs(d2)
        md = ctx.call("extract_file", lib.ocfl.Object().extract_file, src, name, d2, lp)
        t = read_tree(d2)
        ctx.check(t == {os.path.basename(lp): want[lp]}, "extracted single file differs", "%s %r got %s", vdir, lp, {a: len(b) for a, b in t.items()})
        same_meta(ctx, vars(md), s.metas[k], None, "extract_file " + vdir)


def case(ctx):
    s = Session(ctx, mem=ctx.index % 8 == 3, nv=102 if ctx.index % 350 == 17 else None)
    s.pool.extreme = ctx.index % 40 == 20
    try:
        run(ctx, s)
    finally:
        s.close()


def run(ctx, s):
    t0 = time.time()
    kinds = []
    for st in s.steps():
        kinds.append(st.kind)
        ctx.log("%s %s" % (st.kind, st.opts))
        inv = ctx.call(st.kind, st.run)
        if st.kind == "if-different" and not st.new_version:
            ctx.check(inv is None, "version added though nothing differs", "%s", s.describe())
        else:
            ctx.check(inv is not None and inv.head == "v%d" % st.n and inv.id == s.id, "returned inventory is not that of the new version", "%s %s", st.kind, inv and inv.head)
        if ctx.rng.random() < 0.3:
            check_version(ctx, s, st.n - 1)
    ctx.note("kinds", "+".join(sorted(set(kinds))))
    ctx.note("config", s.cfg["digest_algorithm"], s.cfg["content_path_normalization"], s.cfg["dedupe"], s.cfg["forward_delta"], s.cfg["content_directory"])
    ctx.note("versions", len(s.states))
    if s.url:
        ctx.count("objects in memory file system")
    with open(os.path.join(s.dir, "inventory.json"), encoding="utf-8") as fh:
        raw = json.load(fh)
    ctx.check(list(sorted(raw["versions"], key=lambda v: int(v[1:]))) == ["v%d" % (i + 1) for i in range(len(s.states))] and raw["head"] == "v%d" % len(s.states),
              "stored versions are not those written", "%s", sorted(raw["versions"]))
    for k, want in enumerate(s.states):
        v = raw["versions"]["v%d" % (k + 1)]
        u = v.get("user", {})
        same_meta(ctx, {"message": v.get("message"), "name": u.get("name"), "address": u.get("address"), "created": v.get("created")}, s.metas[k], t0, "inventory v%d" % (k + 1))
        got = oracle.reconstruct(s.dir, "v%d" % (k + 1), raw)
        ctx.check(got == want, "stored version differs from what was supplied", "v%d %s", k + 1, s.describe())
    ks = list(range(len(s.states)))
    if len(ks) > 5:
        ks = sorted(set([0, len(ks) - 1] + ctx.rng.sample(ks, 3)))
    for k in ks:
        check_version(ctx, s, k)
