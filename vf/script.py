"""Short programs of library calls, as data: run the same program in other environments or beside others, and compare.

make() writes the sources and returns a list of steps (JSON values); run() carries one out and returns a JSON value
of everything observable, with the base directory replaced, so that results of two runs can be compared with ==."""
import hashlib
import json
import os
import types

from . import foreign, gen
from .monitors import write_tree


def plain_tree(rng, pool, prev=None, ascii_names=False):
    t = gen.evolve(rng, prev, pool, 0.2) if prev is not None else gen.tree(rng, pool, n=rng.choice([1, 2, 3, 5, 8]), odd=0.2)
    if ascii_names:
        out = {}
        for p, c in t.items():
            q = p.encode("ascii", "replace").decode().replace("?", "_")
            if not gen.conflict(q, out):
                out[q] = c
        t = out
    return t


def make(rng, base, ascii_names=False, default_times=False, foreigners=True, steps=None, root=None, bags=True, idents=None):
    """A program below directory base. Returns (steps, states of the main object, id, metadata)."""
    pool = gen.Pool(rng, big=rng.random() < 0.05)
    cfg = gen.config(rng)
    if ascii_names:
        cfg["content_directory"] = cfg["content_directory"].encode("ascii", "ignore").decode() or "content"
    ident = (idents or gen.object_id)(rng)
    prog, states, metas = [], [], []
    n = steps or rng.choice([1, 2, 2, 3, 4])
    for i in range(n):
        st = plain_tree(rng, pool, states[-1] if states else None, ascii_names)
        src = "src%d" % (i + 1)
        write_tree(os.path.join(base, src), st)
        m = gen.meta(rng)
        if default_times and rng.random() < 0.5:
            m["created"] = None
        c = dict(cfg)
        if i:
            c["fixity"] = None
            if rng.random() < 0.15:
                c["digest_algorithm"] = rng.choice(gen.DIGESTS)
        states.append(st)
        metas.append(m)
        prog.append({"op": "create" if i == 0 else "update", "cfg": c, "id": ident, "src": src, "meta": m, "obj": "obj"})
        if rng.random() < 0.4:
            prog.append({"op": "validate", "obj": "obj"})
    k = rng.randrange(n)
    prog.append({"op": "extract", "obj": "obj", "version": "v%d" % (k + 1), "dst": "out"})
    if rng.random() < 0.5:
        paths = sorted(states[-1])
        new = states[0] or {}
        edits = [["delete", rng.choice(paths)] if paths and rng.random() < 0.4 else ["rename", rng.choice(paths), "new-%d" % rng.randrange(3)] if paths and rng.random() < 0.5
                 else ["add", rng.choice(sorted(new)), "add-%d" % rng.randrange(5)] if new else ["delete", "none"] for _ in range(rng.choice([2, 5, 9]))]
        prog.append({"op": "edit", "cfg": {"content_path_normalization": cfg["content_path_normalization"]}, "obj": "obj", "src": "src1", "edits": edits})
    if states[-1]:
        prog.append({"op": "extract_file", "obj": "obj", "version": "head", "dst": "out1", "path": rng.choice(sorted(states[-1]))})
    prog.append({"op": "validate", "obj": "obj"})
    prog.append({"op": "inventory", "obj": "obj"})
    prog.append({"op": "tree", "obj": "obj"})
    if foreigners:
        while True:
            o = foreign.make(rng, "quick", nv=rng.choice([1, 2, 3]), plain=ascii_names, simple_paths=True, ident=idents(rng) if idents else None)
            if not ascii_names or all(f.isascii() for f in list(o.files) + [o.content_dir]):
                break
        foreign.write(o, os.path.join(base, "foreign"))
        prog.append({"op": "validate", "obj": "foreign"})
        prog.append({"op": "inventory", "obj": "foreign"})
        if rng.random() < 0.6:
            f = rng.choice(sorted(o.files))
            write_tree(os.path.join(base, "broken"), dict(o.files))
            for v in o.vdirs:
                os.makedirs(os.path.join(base, "broken", v), exist_ok=True)
            with open(os.path.join(base, "broken", f), "ab") as fh:
                fh.write(b"x")
            prog.append({"op": "validate", "obj": "broken"})
        for n in range(rng.choice([0, 1, 1, 2])):
            prog += damaged(rng, base, "broken%d" % n, ascii_names)
        if rng.random() < 0.5:
            write_tree(os.path.join(base, "fsrc"), plain_tree(rng, pool, None, ascii_names))
            prog.append({"op": "update", "cfg": {"digest_algorithm": o.algs[-1], "spec_version": "1.1"}, "id": None, "src": "fsrc", "meta": gen.meta(rng), "obj": "foreign"})
            prog.append({"op": "validate", "obj": "foreign"})
    if bags:
        prog.append({"op": "bag", "obj": "obj", "version": "v1", "dst": "bag"})
    lay = rng.choice(["0003-hash-and-id-n-tuple-storage-layout", "nnnn-flat-quoted-storage-layout", "0003-hash-and-id-n-tuple-storage-layout", "nnnn-tuple-tree-layout"])
    r = root or "root"
    if root is None and rng.random() < 0.5:      # a root that other software made
        nm = rng.choice(["0003-hash-and-id-n-tuple-storage-layout", "nnnn-uuid-quadtree", "nnnn-flat-quoted-storage-layout"])
        cfg = {"extensionName": nm, "digestAlgorithm": "sha256", "tupleSize": 2, "numberOfTuples": 2, "prefix": "\u00e9:", "note": "\u6587"}
        write_tree(os.path.join(base, "root2"), {"0=ocfl_1.1": b"ocfl_1.1\n", "ocfl_layout.json": json.dumps({"extension": nm, "description": "d\u00e9crit \u6587"}, ensure_ascii=False).encode("utf8"),
                                                 "extensions/%s/config.json" % nm: json.dumps(cfg, ensure_ascii=False).encode("utf8")})
        prog += [{"op": "path", "root": "root2", "id": "\u00e9:12345678-1234-1234-1234-123456789012"}, {"op": "validate_root", "root": "root2"}, {"op": "add", "root": "root2", "obj": "obj"}, {"op": "list", "root": "root2"}]
    if root is None:
        prog.append({"op": "init", "root": r, "layout": lay})
    prog.append({"op": "path", "root": r, "id": ident})
    prog.append({"op": "add", "root": r, "obj": "obj"})
    if root is None:
        prog.append({"op": "list", "root": r})
        prog.append({"op": "validate_root", "root": r})
        if foreigners:
            prog.append({"op": "add", "root": r, "obj": "foreign"})
            prog.append({"op": "list", "root": r})
    return prog, states, ident, metas


def damaged(rng, base, name, ascii_names):
    """A validation step for an object with inventories that disagree, or with many faults of one kind."""
    from .common import Skip
    from .props import c10
    d = os.path.join(base, name)
    while True:
        o = foreign.make(rng, "quick", nv=rng.choice([2, 2, 3, 4]), plain=ascii_names, simple_paths=True)
        if not ascii_names or all(f.isascii() for f in list(o.files) + [o.content_dir]):
            break
    foreign.write(o, d)
    b = c10.Bench(types.SimpleNamespace(rng=rng, count=lambda *a: None), o, d)
    b.judge = lambda *a, **kw: None
    done = 0
    if b.priors and rng.random() < 0.7:
        for e in rng.sample(c10.EDITS, rng.choice([3, 6, 9])):
            try:
                e(b)
                done += 1
            except Skip:
                pass
            if done == 3:
                break
    if b.priors and rng.random() < 0.5:
        k = rng.choice(b.priors)          # several paths of one version renamed at once
        inv = json.loads(json.dumps(o.invs[k]))
        for v in inv["versions"].values():
            for ps in v["state"].values():
                ps[:] = ["other-" + p if rng.random() < 0.7 else p for p in ps]
        b.put(k, inv)
    if rng.random() < 0.5:
        for n in range(rng.choice([1, 2, 4])):
            where = rng.choice(["", o.vdirs[0] + "/", o.vdirs[-1] + "/", o.vdirs[0] + "/" + o.content_dir + "/"])
            write_tree(d, {where + "extra%d" % rng.randrange(100): b"x"})
    return [{"op": "validate", "obj": name, "codes": True}, {"op": "identify", "obj": name}]


def neutral(v, base):
    return json.loads(json.dumps(v).replace(json.dumps(base)[1:-1], "BASE"))


def run(step, base, rel=False, remote=(), url=None, tree=None):
    """Carry out one step. rel: hand over paths relative to the working directory. What is named in remote is below url, where tree(name) gives its files."""
    import ocfl
    from ocfl.bagger import bag_extracted_version
    from ocfl.version_metadata import VersionMetadata

    def path(name):
        if name in remote:
            return url + "/" + name
        p = os.path.join(base, name)
        return os.path.relpath(p) if rel else p

    def vm(m):
        return VersionMetadata(created=m["created"], message=m["message"], name=m["name"], address=m["address"])

    def files(name):
        out = {}
        if name in remote:
            return {p: hashlib.sha256(c).hexdigest() for p, c in tree(name).items()}
        for d, _, fs in os.walk(path(name)):
            for f in fs:
                p = os.path.join(d, f)
                with open(p, "rb") as fh:
                    out[os.path.relpath(p, path(name))] = hashlib.sha256(fh.read()).hexdigest()
        return out
    op = step["op"]
    try:
        if op == "create":
            r = ocfl.Object(identifier=step["id"], **step["cfg"]).create(srcdir=path(step["src"]), metadata=vm(step["meta"]), objdir=path(step["obj"])).data
        elif op == "update":
            r = ocfl.Object(**step["cfg"]).add_version_with_content(objdir=path(step["obj"]), srcdir=path(step["src"]), metadata=vm(step["meta"])).data
        elif op == "build":
            r = ocfl.Object(identifier=step["id"], **step["cfg"]).build(srcdir=path(step["src"]), versions_metadata={i + 1: vm(m) for i, m in enumerate(step["metas"])}, objdir=path(step["obj"])).data
        elif op == "validate":
            passed, v = ocfl.Object().validate(objdir=path(step["obj"]), log_warnings=True)
            r = [passed, sorted(v.log.messages), v.log.num_errors, v.log.num_warnings, v.id, v.spec_version]
            if step.get("codes"):
                r.append(sorted(v.log.codes.items()))
        elif op == "identify":
            r = ocfl.Object(path=path(step["obj"])).id_from_inventory()
        elif op == "edit":
            o = ocfl.Object(**step["cfg"])
            nv = o.start_new_version(objdir=path(step["obj"]), srcdir=path(step["src"]), carry_content_forward=True)
            r = []
            for e in step["edits"]:
                try:
                    getattr(nv, e[0])(*e[1:])
                    r.append("done")
                except Exception as x:  # pylint: disable=broad-except
                    r.append([type(x).__name__, str(x)])
            r += [[list(t) for t in nv.diff_with_previous()], sorted(nv.files_to_copy.items()), [nv.inventory.current_version.state, nv.inventory.manifest, nv.inventory.fixity]]
        elif op == "extract":
            m = ocfl.Object().extract(path(step["obj"]), step["version"], path(step["dst"]))
            r = [sorted(m.as_dict().items(), key=str), m.id, m.version, files(step["dst"])]
        elif op == "extract_file":
            m = ocfl.Object().extract_file(path(step["obj"]), step["version"], path(step["dst"]), step["path"])
            r = [sorted(m.as_dict().items(), key=str), files(step["dst"])]
        elif op == "inventory":
            r = ocfl.Object(path=path(step["obj"])).parse_inventory().data
        elif op == "inventory_file":
            r = ocfl.Inventory(filepath=os.path.join(path(step["obj"]), "inventory.json")).data
        elif op == "tree":
            r = str(ocfl.Object().tree(path(step["obj"]))).split("\n", 1)[1]
        elif op == "bag":
            m = ocfl.Object().extract(path(step["obj"]), step["version"], path(step["dst"]))
            bag_extracted_version(path(step["dst"]), m, set_bagging_date=True)
            r = {k: v if k.startswith("data/") else "" for k, v in files(step["dst"]).items()}
        elif op == "init":
            r = ocfl.StorageRoot(root=path(step["root"]), layout_name=step["layout"]).initialize()
        elif op == "path":
            r = ocfl.StorageRoot(root=path(step["root"])).object_path(step["id"])
        elif op == "add":
            r = ocfl.StorageRoot(root=path(step["root"])).add(path(step["obj"]))
        elif op == "list":
            r = sorted(ocfl.StorageRoot(root=path(step["root"])).list_objects())
        elif op == "validate_root":
            s = ocfl.StorageRoot(root=path(step["root"]))
            r = [s.validate(log_warnings=True), s.num_objects, s.good_objects, sorted(map(list, s.errors)), sorted(s.log.messages)]
        else:
            raise KeyError(op)
    except Exception as e:  # pylint: disable=broad-except
        return neutral(neutral(["raised", type(e).__name__, str(e)], base), url or base)
    return neutral(neutral(["ok", r], base), url or base)


def main():
    """python -m vf.script PROGRAM OUT BASE: carry out all steps of a program in this process."""
    import random
    import sys
    with open(sys.argv[1], encoding="utf-8") as fh:
        job = json.load(fh)
    if job.get("nofile"):
        import resource
        resource.setrlimit(resource.RLIMIT_NOFILE, (job["nofile"], job["nofile"]))
    if job.get("umask") is not None:
        os.umask(job["umask"])
    if job.get("shuffle") is not None:
        rng = random.Random(job["shuffle"])
        real_list, real_scan = os.listdir, os.scandir

        class Scan:
            """Listing in another order, as another file system would give."""

            def __init__(self, *a):
                with real_scan(*a) as it:
                    self.entries = list(it)
                rng.shuffle(self.entries)
                self.it = iter(self.entries)

            def __iter__(self):
                return self

            def __next__(self):
                return next(self.it)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return None

            def close(self):
                pass

        def listing(*a):
            names = real_list(*a)
            rng.shuffle(names)
            return names
        os.listdir, os.scandir = listing, Scan
    if job.get("logging"):
        import io
        import logging
        logging.basicConfig(level=logging.DEBUG, stream=io.StringIO())
    import ocfl  # noqa: F401  # pylint: disable=unused-import
    if job.get("closed"):
        for fd in (0, 1, 2):
            os.close(fd)
    out = []
    for s in job["steps"]:
        if job.get("chdir"):
            os.chdir(random.choice([job["base"], os.path.dirname(job["base"]), "/", os.path.join(job["base"], "src1")]))
        out.append(run(s, job["base"], job.get("rel", False)))
    if job.get("nofile"):
        out.append(len(os.listdir("/proc/self/fd")))
    with open(sys.argv[2], "w", encoding="utf-8") as fh:
        json.dump(out, fh)


if __name__ == "__main__":
    main()
