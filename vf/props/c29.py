"""C29: objects and storage roots on S3 behave as in the local file system."""
import json
import os
import shutil

from ocfl.object_utils import find_path_type

from vf import foreign, gen, lib, oracle, s3, script
from vf.monitors import read_tree, write_tree
from vf.props import c15

ID = "C29"
LEVEL = "fault_enumeration"
QUICK, THOROUGH = 400, 12000
MIN_DISTINCT = 150
CASE_LIMIT = 150
RULE = ("An S3 server of our own on the loopback interface holds the objects (no directories, listings in pages of 1000, 7 or 2). (a) Programs of library calls (create, updates, extractions, validation, tree, bag export, root creation, "
        "additions, listing, root validation; sources, objects and roots each local or on S3 at random) give the same results, messages and bytes as with everything local. (b) Roots, sound or faulty, give the same verdict, counts and codes. "
        "(c) Another program changes the bucket between two operations: verdicts, codes and listings must be those of what is there now. (d) Paths are classified alike. (e) Creation, update and addition are repeated with the k-th request refused, or all requests from the k-th on: success only for the complete result, "
        "earlier versions intact, what is left rejected by validation or complete. Distinct by stream, what is where, steps or fault.")
ASSUMPTIONS = ["The server implements the part of the protocol that s3fs uses; strong consistency as in present-day S3", "S3 has no empty directories: workloads have none", "Faults are error answers (403), which s3fs does not retry"]


def short_id(rng):
    """Local paths have limits that S3 has not."""
    while True:
        i = gen.object_id(rng)
        if len(i.encode("utf8", "replace")) < 60:
            return i


def mapping(rng, steps):
    names = set()
    for s in steps:
        for k in ("src", "obj", "root"):
            if k in s:
                names.add(s[k])
        if s["op"] in ("extract", "extract_file"):
            names.add(s["dst"])
    p = rng.choice([0.3, 0.6, 1.0])
    out = {n for n in names if rng.random() < p}
    return out or {"obj"}


def programs(ctx, b):
    rng = ctx.rng
    keep = ctx.path("keep")
    os.makedirs(keep)
    steps, _, _, _ = script.make(rng, keep, steps=rng.choice([1, 2, 2, 3]), idents=short_id)
    if rng.random() < 0.4:      # objects of several versions built at once
        pool = gen.Pool(rng)
        st, metas = None, []
        for i in range(rng.choice([1, 2, 3])):
            st = script.plain_tree(rng, pool, st) or {"x": b""}
            write_tree(os.path.join(keep, "vers", "v%d" % (i + 1)), st)
            metas.append(gen.meta(rng))
        steps += [{"op": "build", "cfg": gen.config(rng), "id": gen.object_id(rng), "src": "vers", "metas": metas, "obj": "built"}, {"op": "validate", "obj": "built"}]
    for s in [s for s in steps if s["op"] in ("extract", "extract_file")]:
        if rng.random() < 0.5:      # again, where there is something now
            steps.insert(rng.randrange(steps.index(s), len(steps)) + 1, dict(s, version=rng.choice([s["version"], "head"])))
    for s in steps:
        s.pop("codes", None)      # which message of a code comes last follows the order of listings
    there = mapping(rng, steps)
    there = {n for n in there if not os.path.isdir(os.path.join(keep, n)) or all(ds or fs for _, ds, fs in os.walk(os.path.join(keep, n)))}
    local = ctx.path("local")
    shutil.copytree(keep, local)
    want = [script.run(s, local) for s in steps]
    here = ctx.path("here")
    shutil.copytree(keep, here)
    pre = rng.choice(["p", "p/q r", "\u00e9+&="])
    b.put(pre, {".keep": b""})       # the parent must be there
    for n in there:
        if os.path.isdir(os.path.join(here, n)):
            b.put(pre + "/" + n, read_tree(os.path.join(here, n)))
            shutil.rmtree(os.path.join(here, n))
    b.server.page = rng.choice([1000, 1000, 7, 2])
    for s, w in zip(steps, want):
        if rng.random() < 0.5:
            s3.forget()
        ctx.stats["calls"] += 1
        g = script.run(s, here, remote=there, url=b.url + "/" + pre, tree=lambda n: b.tree(pre + "/" + n))
        ctx.count("step %s %s" % (s["op"], w[0]))
        where = [n for n in (s.get("src"), s.get("obj"), s.get("root"), s.get("dst")) if n in there]
        if g[0] == "raised" and w[0] == "raised":
            ctx.check(g[1] == w[1], "refused in another way on S3: " + s["op"], "%s %s, local %s", s, g, w)
        else:
            ctx.check(g == w, "result differs on S3: " + s["op"], "%s with %s there\n local %s\n s3 %s", s["op"], where, *differ(w, g))
    for n in sorted({s[k] for s in steps for k in ("obj", "root", "dst") if k in s and s["op"] != "bag"}):
        a = read_tree(os.path.join(local, n))
        c = b.tree(pre + "/" + n) if n in there else read_tree(os.path.join(here, n))
        bad = sorted(p for p in set(a) | set(c) if a.get(p) != c.get(p))
        ctx.check(not bad, "bytes stored differ on S3", "%s: %s", n, [(p, p in a, p in c) for p in bad[:4]])
        if n in there:
            ctx.check(not os.path.exists(os.path.join(here, n)), "local directory written for something on S3", "%s", n)
    ctx.note("program", len(steps), ",".join(sorted(there)))


def differ(a, b):
    x, y = json.dumps(a, sort_keys=True), json.dumps(b, sort_keys=True)
    i = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
    return x[max(0, i - 60):i + 160], y[max(0, i - 60):i + 160]


def root_answer(ctx, root):
    s = lib.ocfl.StorageRoot(root=root)
    try:
        ctx.stats["calls"] += 2
        ok = s.validate()
        res = [ok, s.num_objects, s.good_objects, sorted(map(list, s.errors)), sorted(s.log.codes)]
    except lib.StorageRootException as e:
        res = ["refused", str(e).replace(root, "ROOT")]
    s = lib.ocfl.StorageRoot(root=root)
    try:
        res.append(sorted(map(list, s.list_objects())))
    except lib.StorageRootException as e:
        res.append(["refused", str(e).replace(root, "ROOT")])
    return res


def roots(ctx, b):
    rng = ctx.rng
    r, _ = c15.compose(ctx)
    root = r.dir
    for d, _, _ in os.walk(root, topdown=False):      # S3 cannot hold empty directories
        if d != root and not os.listdir(d):
            os.rmdir(d)
    at = rng.choice(["r", "x y/r", ""])
    b.put(at, read_tree(root))
    b.server.page = rng.choice([1000, 1000, 3])
    want = root_answer(ctx, root)
    got = root_answer(ctx, (b.url + "/" + at).rstrip("/"))
    ctx.check(json.dumps(want).replace(root, "ROOT") == json.dumps(got).replace((b.url + "/" + at).rstrip("/"), "ROOT"), "root is judged differently on S3", "local %s\ns3 %s", *differ(want, got))
    for d, ds, fs in os.walk(root):
        p = os.path.relpath(d, root)
        if rng.random() < 0.4 and p != "." and "?" not in p:
            url = (b.url + "/" + at).rstrip("/") + "/" + p
            a = ctx.call("find_path_type", find_path_type, d)
            c = ctx.call("find_path_type", find_path_type, url)
            ctx.check(a == c, "path is classified differently on S3", "%s: local %s s3 %s", p, a, c)
            ctx.count("paths classified: " + (a if a in ("root", "object", "file") else "other"))
    ctx.note("root", bool(want[0]), len(want), str(want[-2])[:60])


def object_answer(where):
    passed, v = lib.validate(where)
    res = [passed, sorted(v.log.codes)]
    o = lib.ocfl.Object()
    o.open_obj_fs(where)
    res.append(o.id_from_inventory())
    res.append(o.tree(where).split("\n", 1)[1])
    return res


def others(ctx, b):
    """Another program changes the bucket between two operations of this one."""
    rng = ctx.rng
    while True:
        o = foreign.make(rng, "quick", nv=rng.choice([1, 2, 3]), simple_paths=True, ident=rng.choice(["x:1", "a b", "\u00e9/z"]))
        if not o.dirs:
            break
    at = rng.choice(["o", "x y/o", "r/a/b"])
    in_root = at.startswith("r/")
    files = {at + "/" + p: c for p, c in o.files.items()}
    if in_root:
        files["r/0=ocfl_1.1"] = b"ocfl_1.1\n"
    b.put("", files)
    b.server.page = rng.choice([1000, 1000, 3])

    def ask():
        shutil.rmtree(ctx.path("mirror"), ignore_errors=True)
        write_tree(ctx.path("mirror"), b.tree(""))
        out = []
        for base in (ctx.path("mirror"), b.url):
            res = []
            ctx.stats["calls"] += 3
            if os.path.isdir(os.path.join(ctx.path("mirror"), at)):
                try:
                    res.append(object_answer(base + "/" + at))
                except lib.REFUSALS as e:
                    res.append(["refused", str(e).replace(base, "BASE")])
            if in_root:
                res.append(json.loads(json.dumps(root_answer(ctx, base + "/r")).replace(base, "BASE")))
            out.append(res)
        return out
    want, got = ask()
    ctx.check(want == got, "object is judged differently on S3", "local %s\ns3 %s", *differ(want, got))
    for i in range(rng.choice([1, 2, 3])):
        here = b.tree("")
        keys = sorted(k for k in here if k.startswith(at + "/"))
        what = rng.choice(["remove", "add", "change", "version", "all", "object"])
        if what == "remove" and keys:
            b.drop(rng.choice(keys))
        elif what == "change" and keys:
            k = rng.choice(keys)
            b.put("", {k: here[k] + b" "})
        elif what == "all":
            for k in keys:
                b.drop(k)
        elif what == "object":
            o2 = foreign.make(rng, "quick", nv=1, simple_paths=True, ident="other:1")
            b.put("r/c/d" if rng.random() < 0.7 else at, o2.files)
        elif what == "version":
            b.put("", files)
        else:
            b.put("", {at + "/" + rng.choice(["stray", "v1/stray", "v1/content/stray", "logs/x", "v1/%s/y" % o.content_dir, "extensions/e/x", "v9/z"]): b"x"})
        keys = sorted(b.tree(""))
        for k in keys:      # a local file system cannot hold both x and x/y
            if any(m.startswith(k + "/") for m in keys):
                b.drop(k)
        want, got = ask()
        ctx.count("seen after another program did: " + what)
        ctx.check(want == got, "change made by another program is not seen on S3", "%s: local %s\ns3 %s", what, *differ(want, got))
    ctx.note("others", what, at, len(files))


def faults(ctx, b):
    rng = ctx.rng
    while True:
        o = foreign.make(rng, "quick", nv=rng.choice([1, 2, 3]), simple_paths=True, ident=rng.choice(["x:1", "a b", "\u00e9/z"]))
        if not o.dirs:
            break
    kind = rng.choice(["update", "update", "create", "add", "create over another", "initialize over another"])
    pool = gen.Pool(rng)
    new = script.plain_tree(rng, pool, None) or {"x": b"1"}
    write_tree(ctx.path("new"), new)
    meta = gen.meta(rng)
    alg = o.algs[-1]
    if kind == "add":
        rootdir = ctx.path("root")
        lay = rng.choice(["0003-hash-and-id-n-tuple-storage-layout", "nnnn-flat-quoted-storage-layout"])
        ctx.call("initialize", lib.ocfl.StorageRoot(root=rootdir, layout_name=lay).initialize, spec_version="1.1")
        base = read_tree(rootdir)
        foreign.write(o, ctx.path("obj"))
    elif kind != "create":
        base = dict(o.files)
    else:
        base = {}
    cfg = {"digest_algorithm": alg, "spec_version": "1.1"}

    def reset():
        for k in list(b.server.buckets[b.name]):
            del b.server.buckets[b.name][k]
        b.put("p", {".keep": b""})
        b.put("p/t", base)
        s3.forget()

    def go():
        if kind == "update":
            return lib.ocfl.Object(**cfg).add_version_with_content(objdir=b.url + "/p/t", srcdir=ctx.path("new"), metadata=lib.vmeta(meta))
        if kind == "initialize over another":
            return lib.ocfl.StorageRoot(root=b.url + "/p/t").initialize()
        if kind != "add":
            return lib.ocfl.Object(identifier="x:y", **cfg).create(objdir=b.url + "/p/t", srcdir=ctx.path("new"), metadata=lib.vmeta(meta))
        return lib.ocfl.StorageRoot(root=b.url + "/p/t").add(ctx.path("obj"))
    reset()
    b.server.log = []
    r = None
    if "over" in kind:
        ctx.refused(kind + " on S3", lib.REFUSALS, go)
    else:
        r = ctx.call(kind + " on S3", go)
    n = len(b.server.log)
    ops = [e[0] for e in b.server.log]
    complete = b.tree("p/t")
    path = r[1] if kind == "add" else ""
    for f in base:
        if kind == "add" or f.startswith("v"):
            ctx.check(complete.get(f) == base[f], "update on S3 changed what was there", f)
    ks = list(range(n)) if n <= 12 else sorted(rng.sample(range(n), 12))
    for k in ks:
        for rest in ([False, True] if rng.random() < 0.3 else [rng.random() < 0.5]):
            reset()
            seen = [0]

            def fault(op, bucket, key):
                seen[0] += 1
                return 403 if seen[0] == k + 1 or rest and seen[0] > k else None
            b.server.fault = fault
            failed = None
            ctx.stats["calls"] += 1
            try:
                go()
            except Exception as e:  # pylint: disable=broad-except
                failed = e
            b.server.fault = None
            s3.forget()
            left = b.tree("p/t")
            what = "%s, request %d of %d (%s)%s refused" % (kind, k + 1, n, ops[k], " and later ones" if rest else "")
            if "over" in kind:
                ctx.check(left == base, "refused operation on S3 changed what was there", "%s: %s", what, sorted(p for p in set(left) | set(base) if left.get(p) != base.get(p))[:4])
                ctx.check(failed, "operation that must be refused reported success", what)
            ctx.count("fault %s %s: %s" % (kind, ops[k], "raised" if failed else "completed"))
            if not failed:
                ctx.check(left == complete, "success reported although a request failed", "%s: differs in %s", what, sorted(p for p in set(left) | set(complete) if left.get(p) != complete.get(p))[:4])
                continue
            for f in base:
                if kind == "add" or f.startswith("v"):
                    ctx.check(left.get(f) == base[f], "failed operation on S3 changed what was there", "%s: %s", what, f)
            if left == base or left == complete:
                ctx.count("left as before" if left == base else "left complete")
                continue
            if kind == "add":
                s = lib.ocfl.StorageRoot(root=b.url + "/p/t")
                ok = ctx.call("validate root", s.validate)
                inside = {p: c for p, c in left.items() if p.startswith(path + "/")}
                ctx.check(not ok or not inside or left == complete, "incomplete addition on S3 passes validation", "%s: left %s", what, sorted(inside))
            else:
                passed, v = ctx.call("validate", lib.validate, b.url + "/p/t")
                if passed:
                    head = json.loads(left["inventory.json"])["head"]
                    write_tree(ctx.path("left"), left)
                    bad = oracle.check_object(ctx.path("left"))
                    states = [oracle.reconstruct(ctx.path("left"), v) for v in json.loads(left["inventory.json"])["versions"]]
                    shutil.rmtree(ctx.path("left"))
                    ctx.check(not bad and (states[-1] == new or left["inventory.json"] == base.get("inventory.json")), "incomplete write on S3 passes validation", "%s: head %s, left %s", what, head, sorted(set(left) ^ set(complete)))
                if kind == "update" and rng.random() < 0.5:
                    # earlier versions can still be recovered
                    write_tree(ctx.path("left"), left)
                    inv = json.loads(base["inventory.json"])
                    want = json.loads(complete["inventory.json"])
                    for v in inv["versions"]:
                        a = {p: left.get(inv["manifest"][d][0]) for d, ps in inv["versions"][v]["state"].items() for p in ps} if all(d in inv["manifest"] for d in inv["versions"][v]["state"]) else None
                        ctx.check(a is None or None not in a.values(), "content of an earlier version is gone after a failed update on S3", "%s %s", what, v)
                    shutil.rmtree(ctx.path("left"))
                    del want
    ctx.note("faults", kind, n, ",".join(sorted(set(ops))))


def case(ctx):
    r = ctx.rng.random()
    with s3.Bucket(ctx) as b:
        if r < 0.42:
            programs(ctx, b)
        elif r < 0.55:
            others(ctx, b)
        elif r < 0.7:
            roots(ctx, b)
        else:
            faults(ctx, b)
        ctx.count("requests served", len(b.server.log))
