"""C06: content is stored under the chosen deduplication and path strategy."""
import collections
import hashlib
import json
import os
import re

from vf import gen, lib, oracle
from vf.monitors import write_tree
from vf.session import Session

ID = "C06"
LEVEL = "exploration"
QUICK, THOROUGH = 1100, 24000
MIN_DISTINCT = 100
RULE = ("Random histories with many duplicates within and across versions and names whose normalized forms look alike, under every combination of dedupe, forward delta and normalization. After each step the "
        "new version's content files are compared with a model of what the strategy stores, each content path with an independent normalization, and manifest with disk. A second stream stages single adds with "
        "repeated sources and explicit content paths that collide. Distinct by configuration and step kinds.")

SAFE = set(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.-~/")


def norm(path, how):
    """Content path (below version/contentDirectory) for a source path."""
    if how is None:
        return path
    if how == "md5":
        return hashlib.md5(path.encode("utf8")).hexdigest()[:16]
    out = "".join(chr(b) if b in SAFE else "%%%02X" % b for b in path.encode("utf8"))
    return "%2E" + out[1:] if out.startswith(".") else out


def loose(path):
    return "/".join(re.sub(r"(__\d+)+$", "", e) for e in path.split("/"))


def disk_files(d, cd):
    out = set()
    for v in os.listdir(d):
        c = os.path.join(d, v, cd)
        if re.fullmatch(r"v\d+", v) and os.path.isdir(c):
            for dp, _, fs in os.walk(c):
                out |= {os.path.relpath(os.path.join(dp, f), d) for f in fs}
    return out


def load(d):
    with open(os.path.join(d, "inventory.json"), encoding="utf-8") as fh:
        return json.load(fh)


def common(ctx, d, cd, before, vdirs):
    """Manifest is exactly what is on disk; new paths lie in the new versions' content directories. Returns {path: bytes} of new files."""
    inv = load(d)
    paths = [p for ps in inv["manifest"].values() for p in ps]
    disk = disk_files(d, cd)
    ctx.check(len(paths) == len(set(paths)), "content path listed twice", "%s", paths[:5])
    ctx.check(set(paths) == disk, "manifest differs from files stored", "only manifest %s only disk %s", sorted(set(paths) - disk)[:3], sorted(disk - set(paths))[:3])
    ctx.check(not oracle.ancestor_conflict(paths), "content paths conflict", "%s", paths[:6])
    new = {}
    for p in disk - before:
        parts = p.split("/")
        ctx.check(parts[0] in vdirs and parts[1] == cd and len(parts) > 2, "content path not in the new version's content directory", "%s not %s/%s", p, vdirs, cd)
        with open(os.path.join(d, p), "rb") as fh:
            new[p] = fh.read()
    ctx.check(before <= disk, "earlier content files gone", "%s", sorted(before - disk)[:3])
    return inv, new, disk


def match(ctx, want, got, other, what):
    """Each stored path is the normalized name of one logical path with that content, injectively; a suffix only where the plain path is taken."""
    todo = list(want)
    rest = []
    for p in sorted(got):
        if p in todo:
            todo.remove(p)
        else:
            rest.append(p)
    for p in rest:
        hit = next((w for w in todo if loose(w) == loose(p)), None)
        ctx.check(hit is not None, "content path does not follow the normalization", "%s: %s for %s", what, p, sorted(want)[:4])
        ctx.check(gen.conflict(hit, [x for x in other if x != p]), "content path altered though its plain form is free", "%s: %s instead of %s", what, p, hit)
        ctx.count("suffixed content paths")
        todo.remove(hit)


def history(ctx):
    s = Session(ctx, odd=0.5)
    s.pool.extreme = ctx.index % 40 == 20
    s.cfg["dedupe"], s.cfg["forward_delta"] = ctx.rng.random() < 0.5, ctx.rng.random() < 0.5
    pick = s.pool.pick
    s.pool.pick = lambda dup=0.6: pick(max(dup, 0.6))
    kinds = []
    cd = s.cfg["content_directory"]
    disk, done = set(), 0
    for st in s.steps():
        kinds.append(st.kind)
        ctx.log("%s %s" % (st.kind, st.opts))
        ctx.call(st.kind, st.run)
        vdirs = ["v%d" % (i + 1) for i in range(done, st.n)]
        _, new, disk = common(ctx, s.dir, cd, disk, vdirs)
        how = st.opts["content_path_normalization"]
        for k in range(done, st.n):
            model, state = s.stored[k], s.states[k]
            vpre = "v%d/%s/" % (k + 1, cd)
            mine = {p[len(vpre):]: b for p, b in new.items() if p.startswith(vpre)}
            by = collections.defaultdict(list)
            for p, b in mine.items():
                by[b].append(p)
            if model is None:
                ctx.check(st.kind != "metadata" or not mine, "content stored though none was supplied", "%s", sorted(mine)[:3])
                continue
            for c, want in model.items():
                ctx.check(len(by[c]) == want, "content stored the wrong number of times",
                          "%d instead of %d copies in v%d (dedupe %s forward_delta %s kind %s)", len(by[c]), want, k + 1, st.opts["dedupe"], st.opts["forward_delta"], st.kind)
                match(ctx, [norm(lp, how) for lp in state if state[lp] == c], by[c], list(mine), "v%d %s" % (k + 1, how))
                ctx.count("contents compared with the model")
                if want > 1:
                    ctx.count("contents stored more than once")
                if want == 0:
                    ctx.count("contents not stored again")
            extra = set(by) - set(model)
            ctx.check(not any(by[c] for c in extra), "content stored that is not part of the version", "v%d %s", k + 1, [by[c] for c in extra][:2])
        done = st.n
    ctx.note("config", s.cfg["content_path_normalization"], s.cfg["dedupe"], s.cfg["forward_delta"])
    ctx.note("kinds", "+".join(sorted(set(kinds))))
    ctx.note("versions", len(s.states))


def staged(ctx):
    """Adds one by one with repeated source paths and explicit content paths."""
    rng = ctx.rng
    s = Session(ctx, odd=0.3, max_v=2)
    for st in s.steps():
        ctx.call(st.kind, st.run)
    d, cd = s.dir, s.cfg["content_directory"]
    before = disk_files(d, cd)
    opts = dict(s.cfg, fixity=None, digest_algorithm=s.alg, dedupe=rng.random() < 0.4, forward_delta=rng.random() < 0.4)
    how = opts["content_path_normalization"]
    names = ["a", "a__2", "d/a", "d__2/x", ".h", "%2Eh", "a/b", "d", "x y", "x%20y", "\u00e9", "d/a__2", "a__3", "..x", "d/d/d"]
    src, used = {}, []
    for n in rng.sample(names, rng.randrange(2, 8)):
        if not gen.conflict(n, used):
            used.append(n)
            src[n] = s.pool.pick(0.5)
    write_tree(ctx.path("staged"), src)
    o = lib.ocfl.Object(**opts)
    nv = ctx.call("start_new_version", o.start_new_version, objdir=d, srcdir=ctx.path("staged"), carry_content_forward=False)
    vdir = nv.inventory.head
    pre = "%s/%s/" % (vdir, cd)
    state, stored, plan = {}, {}, []
    prev = set(b for stt in s.states for b in stt.values())
    have = set()
    for i in range(rng.randrange(2, 12)):
        sp = rng.choice(sorted(src))
        lp = gen.new_path(rng, list(state), 0.3)
        cp = None
        if rng.random() < 0.3:
            cand = rng.choice(["a", "a__2", "d", "d/a", "d/a/x", "d__2", "%2Eh", "x%20y", "a/b", "zz", norm(sp, how), norm(sp, how) + "__2", norm(sp, how) + "/x"])
            cp = pre + cand
        c = src[sp]
        keep = (c not in prev and c not in have) or (c not in have and not opts["forward_delta"]) or (c in have and not opts["dedupe"])
        if cp is not None and gen.conflict(cp, list(stored)):
            # Must be refused and change nothing, or be an equal-content no-op
            snap = (json.dumps(nv.inventory.data, sort_keys=True), dict(nv.files_to_copy))
            ctx.refused("add at conflicting content path", lib.REFUSALS, nv.add, sp, lp, cp)
            ctx.check(snap == (json.dumps(nv.inventory.data, sort_keys=True), dict(nv.files_to_copy)), "refused add changed the new version", "%s", cp)
            ctx.count("conflicting adds refused")
            continue
        ctx.call("add", nv.add, sp, lp, cp)
        state[lp] = c
        if keep:
            have.add(c)
            now = {p for ps in nv.inventory.data["manifest"].values() for p in ps if p.startswith(pre)} - set(stored)
            ctx.check(len(now) == 1, "add stored the wrong number of copies", "%s %s", sorted(now), plan)
            p = now.pop()
            if cp is not None:
                ctx.check(p == cp, "explicit content path not used", "%s != %s", p, cp)
            else:
                match(ctx, [norm(sp, how)], [p[len(pre):]], [x[len(pre):] for x in stored], "staged %s" % how)
            stored[p] = c
        else:
            now = {p for ps in nv.inventory.data["manifest"].values() for p in ps if p.startswith(pre)}
            ctx.check(now == set(stored), "add stored content it should not", "%s %s", sorted(now), sorted(stored))
        plan.append((sp, lp, cp, keep))
    ctx.log(plan)
    ctx.call("write_new_version", o.write_new_version, nv)
    inv, new, _ = common(ctx, d, cd, before, [vdir])
    ctx.check(new == stored, "stored files differ from the model of the strategy", "%s != %s (%s)", sorted(new), sorted(stored), plan)
    bad = oracle.check_object(d)
    ctx.check(not bad, "staged object does not conform", "%s %s", bad[:2], plan)
    ctx.check(oracle.reconstruct(d, vdir, inv) == state, "staged version reads back differently", "%s", plan)
    ctx.note("staged", how, opts["dedupe"], opts["forward_delta"], len(stored), len(state))


def case(ctx):
    if ctx.rng.random() < 0.3:
        staged(ctx)
    else:
        history(ctx)
