"""C28: operations carried on at the same time do not disturb each other."""
import hashlib
import json
import os
import shutil

from vf import foreign, gen, lib, oracle, script
from vf.common import HarnessError
from vf.monitors import read_tree, write_tree
from vf.sched import Sched

ID = "C28"
LEVEL = "exploration"
QUICK, THOROUGH = 900, 30000
MIN_DISTINCT = 200
CASE_LIMIT = 150
RULE = ("Two to four threads of one process, of which one runs at a time; a seeded scheduler switches between them at file-system events and at lines of the library, so a schedule is replayed by its seed. (a) Programs of library "
        "calls on different objects and roots: results, messages and written bytes must equal those of the same program run alone. (b) Readers (validate, extract, extract one file, read inventory) of one object at the same time: same "
        "results as alone. (c) Readers beside a writer that updates the object: what a reader gets must be exactly a version that was there, before or after, or an error. (d) Additions to one storage root, of different "
        "identifiers and several of the same one, beside listing and validation: exactly one addition of each identifier succeeds, the root holds exactly the complete objects, and objects already there stay listed. "
        "Distinct by stream and schedule (sequence of switches).")
ASSUMPTIONS = ["Each thread has its own library objects; sharing one instance between threads is not covered", "Two writers updating the same object at the same time are not covered (the library has no locking)",
               "Switches happen at file-system events and library lines, one thread at a time; no memory-model effects"]
PRE = [lib.WANT + "/ocfl/"]


def scheduler(ctx):
    rng = ctx.rng
    return Sched(rng, PRE, p_event=rng.choice([0.05, 0.3, 0.7, 1.0]), p_line=rng.choice([0.0, 0.0, 0.002, 0.02, 0.2]))


def side_by_side(ctx, fns, what):
    s = scheduler(ctx)
    out = s.run(fns)
    ctx.count("switches", s.switches)
    ctx.count("switch points", s.points)
    if s.lost:
        ctx.count("turns lost", s.lost)
    ctx.sig.append((what, hashlib.sha1(repr(s.trace).encode()).hexdigest()[:12]))
    ctx.count("stream: " + what)
    ctx.stats["calls"] += len(fns)
    for r in out:
        if r[0] == "unfinished":
            raise HarnessError("thread did not finish")
    return out, s


def value(out):
    """Results of threads that must not raise (the functions handle the library's exceptions)."""
    for kind, v in out:
        if kind == "raised":
            raise HarnessError("thread raised %r" % (v,)) from v
    return [v for _, v in out]


def differ(a, b):
    x, y = json.dumps(a, sort_keys=True), json.dumps(b, sort_keys=True)
    i = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
    return x[max(0, i - 60):i + 160], y[max(0, i - 60):i + 160]


def program(steps, base):
    return lambda: [script.run(s, base) for s in steps]


def isolated(ctx):
    rng = ctx.rng
    n = rng.choice([2, 2, 3])
    progs = []
    for i in range(n):
        keep = ctx.path("keep%d" % i)
        os.makedirs(keep)
        steps, _, _, _ = script.make(rng, keep, bags=False, steps=rng.choice([1, 2, 3]))
        progs.append(steps)
    want, files = [], []
    for i in range(n):
        base = ctx.path("alone%d" % i)
        shutil.copytree(ctx.path("keep%d" % i), base)
        want.append(program(progs[i], base)())
        files.append(read_tree(base))
    for i in range(n):
        shutil.copytree(ctx.path("keep%d" % i), ctx.path("beside%d" % i))
    got = value(side_by_side(ctx, [program(progs[i], ctx.path("beside%d" % i)) for i in range(n)], "different objects")[0])
    for i in range(n):
        for s, a, b in zip(progs[i], want[i], got[i]):
            ctx.check(a == b, "result differs beside other operations", "%s\n alone %s\n beside %s", s["op"], *differ(a, b))
        now = read_tree(ctx.path("beside%d" % i))
        bad = sorted(p for p in set(files[i]) | set(now) if files[i].get(p) != now.get(p))
        ctx.check(not bad, "bytes written differ beside other operations", "%s", [(p, files[i].get(p, b"")[:60], now.get(p, b"")[:60]) for p in bad[:2]])
        ctx.count("steps compared", len(want[i]))


def an_object(ctx, name):
    """An object with known versions: (path, states, content of every version). Written by the library or by others."""
    rng = ctx.rng
    d = ctx.path(name)
    if rng.random() < 0.5:
        o = foreign.make(rng, "quick", nv=rng.choice([1, 2, 3]), simple_paths=rng.random() < 0.7)
        foreign.write(o, d)
        alg = o.algs[-1]
    else:
        pool = gen.Pool(rng)
        cfg = gen.config(rng)
        st = None
        for i in range(rng.choice([1, 2, 3])):
            st = script.plain_tree(rng, pool, st)
            src = ctx.path("%s-src%d" % (name, i))
            write_tree(src, st)
            c = dict(cfg) if not i else dict(cfg, fixity=None)
            if i:
                ctx.call("update", lib.ocfl.Object(**c).add_version_with_content, objdir=d, srcdir=src, metadata=lib.vmeta(gen.meta(rng)))
            else:
                ctx.call("create", lib.ocfl.Object(identifier=gen.object_id(rng), **c).create, srcdir=src, metadata=lib.vmeta(gen.meta(rng)), objdir=d)
        alg = cfg["digest_algorithm"]
    with open(os.path.join(d, "inventory.json"), encoding="utf-8") as fh:
        inv = json.load(fh)
    vs = sorted(inv["versions"], key=lambda v: int(v[1:]))
    return d, vs, [oracle.reconstruct(d, v) for v in vs], alg


def reader_steps(rng, vs, states, k):
    """Steps of reader k on the object called obj."""
    out = []
    for j in range(rng.choice([1, 2, 3])):
        op = rng.choice(["validate", "extract", "extract", "extract_file", "inventory", "tree"])
        i = rng.randrange(len(vs))
        v = rng.choice([vs[i], "head"])
        st = states[-1] if v == "head" else states[i]
        s = {"op": op, "obj": "obj", "version": v, "dst": "out%d-%d" % (k, j)}
        if op == "extract_file":
            if not st:
                continue
            s["path"] = rng.choice(sorted(st))
        out.append(s)
    return out


def readers(ctx):
    rng = ctx.rng
    d, vs, states, _ = an_object(ctx, "obj")
    if rng.random() < 0.3:      # damage: the same errors must be reported
        f = rng.choice(sorted(read_tree(d)))
        with open(os.path.join(d, f), "ab") as fh:
            fh.write(b"x")
    progs = [reader_steps(rng, vs, states, k) for k in range(rng.choice([2, 3, 4]))]
    want = [program(p, ctx.dir)() for p in progs]
    for p in progs:
        for s in p:
            shutil.rmtree(ctx.path(s["dst"]), ignore_errors=True)
    before = read_tree(d)
    got = value(side_by_side(ctx, [program(p, ctx.dir) for p in progs], "readers")[0])
    for p, a, b in zip(progs, want, got):
        for s, x, y in zip(p, a, b):
            ctx.check(x == y, "result differs beside other readers", "%s\n alone %s\n beside %s", s["op"], *differ(x, y))
            ctx.count("reads compared")
    ctx.check(read_tree(d) == before, "reading changed the object")


def hashes(tree):
    return {p: hashlib.sha256(c).hexdigest() for p, c in tree.items()}


def beside_writer(ctx):
    rng = ctx.rng
    d, vs, states, alg = an_object(ctx, "obj")
    pool = gen.Pool(rng)
    new = script.plain_tree(rng, pool, states[-1])
    if new == states[-1]:
        new = dict(new, **{"one more": b"x"}) if not gen.conflict("one more", new) else {}
    write_tree(ctx.path("new"), new)
    cfg = {"digest_algorithm": alg if rng.random() < 0.8 else rng.choice(gen.DIGESTS), "spec_version": "1.1"}
    update = {"op": "update", "cfg": cfg, "id": None, "src": "new", "meta": gen.meta(rng), "obj": "obj"}
    progs = [[update]] + [reader_steps(rng, vs, states, k) for k in range(rng.choice([1, 2]))]
    got = value(side_by_side(ctx, [program(p, ctx.dir) for p in progs], "beside a writer")[0])
    w = got[0][0]
    ctx.check(w[0] == "ok", "update failed beside readers", "%s", w)
    bad = oracle.check_object(d)
    ctx.check(not bad, "object updated beside readers does not conform", "%s", bad[:2])
    with open(os.path.join(d, "inventory.json"), encoding="utf-8") as fh:
        head = json.load(fh)["head"]
    for v, st in zip(vs + [head], states + [new]):
        ctx.check(oracle.reconstruct(d, v) == st, "version differs after an update beside readers", v)
    known = {v: hashes(st) for v, st in zip(vs + [head], states + [new])}
    for p, g in zip(progs[1:], got[1:]):
        for s, r in zip(p, g):
            ctx.count("read beside writer: %s %s" % (s["op"], r[0]))
            if r[0] != "ok":
                continue
            if s["op"] == "extract":
                said, files = r[1][2], r[1][3]
                ctx.check(said in known and (s["version"] == said or s["version"] == "head"), "extraction beside a writer gave another version", "%s %s", s["version"], said)
                ctx.check(files == known[said], "extraction beside a writer gave other content", "%s: %s", said, sorted(set(files.items()) ^ set(known[said].items()))[:4])
            elif s["op"] == "extract_file":
                ok = [h for v, t in known.items() if s["version"] in (v, "head") for q, h in t.items() if q == s["path"]]
                fs = r[1][1]
                ctx.check(len(fs) == 1 and set(fs.values()) <= set(ok), "extraction of a file beside a writer gave other content", "%s %s", s, fs)
            elif s["op"] == "inventory":
                h = r[1]["head"]
                ctx.check(h in (vs[-1], head) and set(r[1]["versions"]) == set(vs + ([head] if h == head else [])), "inventory read beside a writer is neither the old nor the new one", "%s", h)
    passed, v = ctx.call("validate", lib.validate, d)
    ctx.check(passed is True, "object updated beside readers is not valid", "%s", lib.codes(v))


def shared_root(ctx):
    rng = ctx.rng
    lay = rng.choice(["0002-flat-direct-storage-layout", "0003-hash-and-id-n-tuple-storage-layout", "0003-hash-and-id-n-tuple-storage-layout", "nnnn-flat-quoted-storage-layout"])
    root = ctx.path("root")
    ctx.call("initialize", lib.ocfl.StorageRoot(root=root, layout_name=lay).initialize, spec_version="1.1")
    pre, objs = [], []
    for i in range(rng.choice([2, 3, 4])):
        ident = "id-%d%s" % (i, rng.choice(["", "-x", "\u00e9", " y"]))
        while True:
            o = foreign.make(rng, "quick", nv=rng.choice([1, 2, 3]), ident=ident, simple_paths=True)
            if not o.dirs:
                break
        foreign.write(o, ctx.path("o%d" % i))
        objs.append((ident, ctx.path("o%d" % i), o))
    for ident, d, _ in objs[2:]:
        pre.append(ctx.call("add", lib.ocfl.StorageRoot(root=root).add, d))
    jobs = [0, 1] if rng.random() < 0.4 else [0, 0]
    if rng.random() < 0.4:
        jobs.append(rng.choice([0, 1]))

    def add(d):
        def f():
            try:
                return "ok", lib.ocfl.StorageRoot(root=root).add(d)
            except Exception as e:  # pylint: disable=broad-except
                return "raised", e
        return f

    def watch():
        out = []
        for _ in range(2):
            try:
                out.append(("ok", sorted(lib.ocfl.StorageRoot(root=root).list_objects())))
            except Exception as e:  # pylint: disable=broad-except
                out.append(("raised", e))
        return out
    fns = [add(objs[j][1]) for j in jobs]
    watching = rng.random() < 0.6
    if watching:
        fns.append(watch)
    got = value(side_by_side(ctx, fns, "one root")[0])
    for j in sorted(set(jobs)):
        rs = [g for k, g in zip(jobs, got) if k == j]
        ctx.check(sum(r[0] == "ok" for r in rs) == 1, "not exactly one of the additions of an identifier succeeded", "%s of %d: %s", [r[0] for r in rs], len(rs), [str(r[1])[:200] for r in rs])
        for r in rs:
            if r[0] == "raised":
                ctx.check(isinstance(r[1], lib.StorageRootException), "addition refused with another exception", "%r", r[1])
            else:
                ctx.check(r[1][0] == objs[j][0], "addition returned another identifier", "%r", r[1])
                pre.append(r[1])
    for ident, path in pre:
        o = next(o for i, _, o in objs if i == ident)
        ctx.check(read_tree(os.path.join(root, path)) == o.files, "object added beside others is not complete", "%s", sorted(set(o.files) ^ set(read_tree(os.path.join(root, path))))[:5])
        bad = oracle.check_object(os.path.join(root, path))
        ctx.check(not bad, "object added beside others does not conform", "%s", bad[:2])
    s = lib.ocfl.StorageRoot(root=root)
    ctx.check(sorted(ctx.call("list_objects", lambda: sorted(s.list_objects()))) == sorted((p, i) for i, p in pre), "objects listed are not those added", "%s %s", sorted(s.list_objects()), pre)
    s = lib.ocfl.StorageRoot(root=root)
    ok = ctx.call("validate root", s.validate)
    ctx.check(ok is True and s.good_objects == len(pre), "root with objects added beside each other is not valid", "%s %s", s.log.codes, s.errors)
    if watching:
        old = [(p, i) for i, p in pre if i not in [objs[j][0] for j in jobs]]
        for r in got[-1]:
            ctx.check(r[0] == "ok", "listing raised beside additions", "%r", r[1])
            # the identifier of an object being copied may not be known yet
            ctx.check(set(old) <= set(r[1]) and {p for p, _ in r[1]} <= {p for _, p in pre}, "listing beside additions lacks objects or invents them", "%s of %s", r[1], pre)
            ctx.count("listings beside additions")


def case(ctx):
    r = ctx.rng.random()
    if r < 0.35:
        isolated(ctx)
    elif r < 0.55:
        readers(ctx)
    elif r < 0.8:
        beside_writer(ctx)
    else:
        shared_root(ctx)
