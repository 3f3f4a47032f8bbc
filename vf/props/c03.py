"""C03: adding a version never changes earlier versions or the source."""
import os
import shutil

from vf import foreign, fupdate, lib
from vf.monitors import FS, snapshot, snap_diff
from vf.session import Session

ID = "C03"
LEVEL = "exploration"
QUICK, THOROUGH = 1200, 24000
MIN_DISTINCT = 100
RULE = ("Random histories by every write entry point, and updates of objects from an independent writer (one case in four). Around each step: byte snapshots of every existing version directory, of the other files of the object root, of the source and of the metadata "
        "objects, and the audit-hook trace of every file-system mutation the step made. The trace may hold only events inside the new version directory plus the writing of the root inventory and sidecar. "
        "Distinct by step kinds, configuration and versions.")


def src_snapshot(st):
    if isinstance(st.src, str):
        p = st.src[len("zip://"):] if st.src.startswith("zip://") else st.src
        return p, snapshot(p)
    return None, None


def meta_now(st):
    if isinstance(st.meta_obj, dict):
        return {k: vars(v) for k, v in st.meta_obj.items()}
    return vars(st.meta_obj) if st.meta_obj else None


def foreign_case(ctx):
    """Updates of objects that other software wrote."""
    o = foreign.make(ctx.rng, ctx.tier)
    d = ctx.path("obj")
    foreign.write(o, d)
    kinds = []
    for step in range(ctx.rng.choice([1, 1, 2])):
        u = fupdate.plan(ctx, o, d, "src%d" % step)
        want = fupdate.next_vdir(o.vdirs)
        if want is None:
            break
        kinds.append(u.kind)
        ctx.log("foreign %s %s" % (u.kind, u.opts))
        before = snapshot(d)
        src_before = snapshot(u.src) if os.path.isdir(u.src) else None
        meta_before = dict(vars(u.meta_obj))
        FS.start()
        try:
            u.run()
        except lib.REFUSALS as e:
            ctx.count("foreign updates refused")
            ctx.check(snapshot(d) == before, "refused version changed the object", "%s: %s", e, snap_diff(before, snapshot(d)))
            break
        finally:
            ev = FS.stop()
        after = snapshot(d)
        ctx.check(dict(vars(u.meta_obj)) == meta_before, "metadata object passed in was changed", "%s", u.kind)
        if src_before is not None:
            ctx.check(snapshot(u.src) == src_before, "source changed", "%s: %s", u.kind, snap_diff(src_before, snapshot(u.src)))
        for k in sorted(set(before) | set(after)):
            if before.get(k) != after.get(k):
                ctx.check(k == want or k.startswith(want + "/") or k in ROOT_OK, "existing file of the object changed by update", "%s: %s (%s -> %s)", u.kind, k, before.get(k), after.get(k))
        for e in ev:
            for p in (e["path"], e.get("path2")):
                if p is None or p == "/dev/null" or (u.src and p.startswith(u.src)):
                    continue
                rel = os.path.relpath(p, d)
                ctx.check(rel == want or rel.startswith(want + "/") or rel == "." or (os.path.dirname(rel) == "" and (rel.startswith("inventory.json") or rel not in before)),
                          "update touched an earlier version or other file", "%s: %s", u.kind, e)
        o.vdirs.append(want)
        o.states.append(u.state)
        o.metas.append(u.meta)
        o.algs.append(u.alg)
        ctx.count("foreign updates watched")
    ctx.note("foreign", tuple(o.features), "+".join(kinds))


ROOT_OK = {"inventory.json", "inventory.json.sha512", "inventory.json.sha256"}


def case(ctx):
    if ctx.index % 4 == 3:
        foreign_case(ctx)
        return
    s = Session(ctx, odd=0.2)
    kinds = []
    src_keep = None
    first = True
    before = {}
    for st in s.steps():
        kinds.append(st.kind)
        ctx.log("%s %s" % (st.kind, st.opts))
        srcdir, src_before = src_snapshot(st)
        before = snapshot(s.dir)
        opts_before = repr(sorted(st.opts.items(), key=str))
        cwd = os.getcwd()
        os.chdir(ctx.dir)
        FS.start()
        try:
            os.chdir(cwd)
            inv = ctx.call(st.kind, st.run)
        finally:
            ev = FS.stop()
        after = snapshot(s.dir)
        ctx.count("fs events in steps", len(ev))
        if srcdir is not None:
            cmp_to = snapshot(srcdir)
            ctx.check(cmp_to == src_before, "source changed", "%s: %s", st.kind, snap_diff(src_before, cmp_to))
            ctx.count("sources compared")
        ctx.check(meta_now(st) == st.meta_before, "metadata object passed in was changed", "%s: %r -> %r", st.kind, st.meta_before, meta_now(st))
        ctx.check(repr(sorted(st.opts.items(), key=str)) == opts_before, "settings passed in were changed", "%s", opts_before)
        for e in ev:
            for p in (e["path"], e.get("path2")):
                if p is None or p == "/dev/null":
                    continue
                ctx.check(p == s.dir or p.startswith(s.dir + "/"), "writes outside the object", "%s %s", st.kind, e)
        if first:
            first = False
            continue
        new = "v%d" % st.n
        if st.new_version is False:
            ctx.check(before == after and not ev, "refused version changed the object", "%s", snap_diff(before, after))
            continue
        for k in sorted(set(before) | set(after)):
            if before.get(k) != after.get(k):
                inside = k == new or k.startswith(new + "/")
                ctx.check(inside or k in ROOT_OK, "existing file of the object changed by update", "%s: %s (%s -> %s)", st.kind, k, before.get(k), after.get(k))
        ctx.check(new not in before and after.get(new) == "dir", "update added no new version directory", "%s", st.kind)
        for e in ev:
            for p in (e["path"], e.get("path2")):
                if p is None or p == "/dev/null":
                    continue
                rel = os.path.relpath(p, s.dir)
                inside = rel == new or rel.startswith(new + "/") or rel == "."
                touched_root = os.path.dirname(rel) == "" and rel.startswith("inventory.json")
                tmp_root = os.path.dirname(rel) == "" and e.get("fresh") is not False and rel not in before
                ctx.check(inside or touched_root or tmp_root, "update touched an earlier version or other file", "%s: %s", st.kind, e)
        ctx.count("updates watched")
        del inv
        if src_keep:
            shutil.rmtree(src_keep, ignore_errors=True)
    ctx.note("kinds", "+".join(sorted(set(kinds))))
    ctx.note("config", s.cfg["digest_algorithm"], s.cfg["content_path_normalization"], s.cfg["dedupe"], s.cfg["forward_delta"])
    ctx.note("versions", len(s.states))
