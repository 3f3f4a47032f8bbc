"""Updates of objects that other software wrote, with the ground truth they must lead to."""
import shutil

from . import gen, lib
from .monitors import write_tree

ocfl = lib.ocfl


class Update:
    """One update: .run() performs it; .state, .meta, .kind, .opts, .alg, .adds_version describe the expected result."""


def plan(ctx, o, d, name):
    """Choose the next update of the foreign object o stored at d."""
    rng = ctx.rng
    u = Update()
    prev = o.states[-1]
    pool = getattr(o, "pool", None)
    if pool is None:
        pool = o.pool = gen.Pool(rng, False)
        pool.items += sorted(set(b for s in o.states for b in s.values()))
    state = gen.evolve(rng, prev, pool, 0.3)
    m = gen.meta(rng)
    mo = lib.vmeta(m)
    cur = o.algs[-1]
    u.opts = {"digest_algorithm": cur if rng.random() < 0.6 else rng.choice(["sha512", "sha256"]),
              "fixity": None if rng.random() < 0.75 else rng.sample(gen.FIXITY, rng.choice([0, 1, 2])),
              "forward_delta": rng.random() < 0.7, "dedupe": rng.random() < 0.7,
              "content_path_normalization": rng.choice(["uri", "uri", "md5", None]),
              "content_directory": rng.choice(["content", "content", "data", o.content_dir]),
              "spec_version": rng.choice(["1.1", "1.1", "1.0"])}
    u.kind = rng.choice(["content", "content", "open", "stage", "metadata", "edit", "edit", "rename-all"])
    u.alg = u.opts["digest_algorithm"]
    if u.kind in ("stage", "edit", "rename-all") and rng.random() < 0.3:
        u.alg = cur
        dalg = None
    else:
        dalg = u.alg
    src = ctx.path(name)
    shutil.rmtree(src, ignore_errors=True)
    ob = ocfl.Object(**u.opts)
    if u.kind in ("content", "open", "stage"):
        write_tree(src, state)
        if u.kind == "content":
            u.run = lambda: ob.add_version_with_content(objdir=d, srcdir=src, metadata=mo)
        elif u.kind == "open":
            u.run = lambda: ocfl.Object(path=d, **u.opts).add_version_with_content(srcdir=src, metadata=mo)
        else:
            def stage():
                nv = ob.start_new_version(objdir=d, srcdir=src, digest_algorithm=dalg, fixity=u.opts["fixity"], metadata=mo, carry_content_forward=False)
                nv.add_from_srcdir()
                return ob.write_new_version(nv)
            u.run = stage
    elif u.kind == "metadata":
        state = dict(prev)
        u.run = lambda: ob.add_version_with_content(objdir=d, srcdir=None, metadata=mo)
    elif u.kind == "edit":
        dels = [p for p in prev if p not in state or state[p] != prev[p]]
        adds = [p for p in state if p not in prev or state[p] != prev[p]]
        write_tree(src, {"f%d" % i: state[p] for i, p in enumerate(adds)})

        def edit():
            nv = ob.start_new_version(objdir=d, srcdir=src, digest_algorithm=dalg, fixity=u.opts["fixity"], metadata=mo)
            for p in dels:
                nv.delete(p)
            for i, p in enumerate(adds):
                nv.add("f%d" % i, p)
            return ob.write_new_version(nv)
        u.run = edit
    else:
        names = {}
        for p in sorted(prev):
            names[p] = p if rng.random() < 0.4 else "renamed-%d" % len(names)
        if len(set(names.values())) != len(names) or any(gen.conflict(x, [y for y in names.values() if y != x]) for x in names.values()):
            names = {p: p for p in prev}
        state = {names[p]: b for p, b in prev.items()}
        moved = [p for p in sorted(prev) if names[p] != p and names[p] not in prev]
        state = {(names[p] if p in moved else p): b for p, b in prev.items()}
        if any(gen.conflict(names[p], [q for q in prev if q != p]) for p in moved):
            moved, state = [], dict(prev)

        def ren():
            nv = ob.start_new_version(objdir=d, digest_algorithm=dalg, fixity=u.opts["fixity"], metadata=mo)
            for p in moved:
                nv.rename(p, names[p])
            return ob.write_new_version(nv)
        u.run = ren
    u.state, u.meta, u.src, u.meta_obj = state, m, src, mo
    return u


def next_vdir(vdirs):
    """Name that the next version must have, or None if the padding is exhausted."""
    last = vdirs[-1]
    n = int(last[1:]) + 1
    if vdirs[0] == "v1":
        return "v%d" % n
    name = "v%0*d" % (len(last) - 1, n)
    return name if len(name) == len(last) and name[1] == "0" else None
