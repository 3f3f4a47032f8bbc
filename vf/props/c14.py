"""C14: a storage root always lists exactly the objects added to it."""
import json
import os
import shutil

from vf import foreign, gen, lib, oracle
from vf.monitors import FS, read_tree, snap_diff, snapshot
from vf.props import c13
from vf.session import memory, memory_tree

ID = "C14"
LEVEL = "exploration"
QUICK, THOROUGH = 2000, 50000
MIN_DISTINCT = 300
RULE = ("A storage root is created through the library (every layout name, random allowed parameters, both specification versions) or written independently, then 2-9 additions and refusals are carried out in random order, "
        "through the creating instance, a new instance, or an instance given another layout name. After every step: listing, object paths, stored bytes and validation (fresh instance) against the model; after a refusal nothing "
        "on disk has changed. Refusals: identifier or path in use, reserved names, no or broken declaration or inventory, later specification version, location inside another object, missing source, no layout. "
        "One case in twelve has the root and objects in another file system than the local one. Distinct by (layout, parameters, steps).")
ASSUMPTIONS = ["objects without empty directories (copying omits them by design)", "names short enough for the file system", "no symbolic links, no concurrent writers"]


def want_path(kind, cfg, i):
    """Path the layout must give, or REFUSED."""
    if kind == "0002":
        return c13.ref_0002(i)
    if kind == "0003":
        return c13.ref_0003(i, cfg["digestAlgorithm"], cfg["tupleSize"], cfg["numberOfTuples"])
    lay = c13.get_layout(c13.CANON[kind])
    if cfg:
        lay.check_and_set_layout_params(dict(cfg, extensionName=c13.CANON[kind]))
    try:
        return lay.identifier_to_path(i)
    except lib.LayoutException:
        return c13.REFUSED


def usable(p):
    return all(len(s.encode("utf8")) <= 240 for s in p.split("/")) and len(p.encode("utf8")) < 800


def make_object(ctx, ident, spec, name):
    """A conforming object on disk with this identifier, of specification version <= spec."""
    for _ in range(20):
        o = foreign.make(ctx.rng, ctx.tier, nv=ctx.rng.choice([1, 1, 2, 3]), ident=ident, simple_paths=ctx.rng.random() < 0.5)
        if o.spec <= spec and not o.dirs:
            break
    else:
        o = foreign.make(ctx.rng, ctx.tier, nv=1, ident=ident, plain=True, features=False, spec_mix=False, max_files=2)
        while o.spec > spec or o.dirs:
            o = foreign.make(ctx.rng, ctx.tier, nv=1, ident=ident, plain=True, features=False, spec_mix=False, max_files=2)
    d = ctx.path(name)
    shutil.rmtree(d, ignore_errors=True)
    foreign.write(o, d)
    return o, d


def ident_for(rng, kind, cfg, have):
    """A new identifier, often close to one in use."""
    for _ in range(60):
        r = rng.random()
        if kind == "uuid":
            i = cfg["prefix"] + c13.uuids(rng)[0]
        elif kind == "tuple" and r < 0.6:
            n = cfg["tupleSize"]
            i = rng.choice(["a" * n, "b" * n, "a" * n * 2, "a" * n * 3, "b" * n * 2, "a" * (2 * n - 1), "a" * (n - 1), "a" * n + "b" * n, "a" * n + "b"])
        elif have and r < 0.35:
            b = rng.choice(have)
            i = rng.choice([b + "x", b.swapcase(), b + "/y", b[:-1], b + " ", b + b, "x" + b, b + ".", b.replace("/", "_")])
        elif r < 0.41:
            i = rng.choice(["extensions2", "extensions-old", "Extensions", "extension", ".extensions", "extensions ", "ocfl_layout", "logs", "lost+found", ".git", "inventory.json", "v1", "content", ".snapshot"])
        elif r < 0.6:
            i = rng.choice(c13.identifiers(rng))
        else:
            i = gen.object_id(rng)
        try:
            i.encode("utf8")
        except UnicodeEncodeError:
            continue
        if "\0" in i or i == "" or i in have:
            continue
        return i
    return "fallback-%d" % rng.randrange(10 ** 9)


class Root:
    def __init__(self, ctx):
        rng = ctx.rng
        self.ctx = ctx
        self.dir = ctx.path("root")
        self.name = rng.choice(sorted(c13.NAMES))
        self.kind = c13.NAMES[self.name]
        self.spec = rng.choice(["1.0", "1.1", "1.1"])
        self.objects = {}    # path -> (id, {file: bytes})
        self.cfg = {"0003": {"digestAlgorithm": "sha256", "tupleSize": 3, "numberOfTuples": 3}, "tuple": {"tupleSize": 2}, "uuid": {"prefix": "urn:uuid:"}}.get(self.kind)
        self.other_files = set()

    def create(self):
        ctx, rng = self.ctx, self.ctx.rng
        params = None
        if self.cfg and rng.random() < 0.6:
            while self.kind == "0003":
                self.cfg = c13.config_0003(rng)
                if c13.legal_0003(self.cfg):
                    break
            if self.kind == "tuple":
                self.cfg = {"tupleSize": rng.randrange(2, 7)}
            elif self.kind == "uuid":
                self.cfg = {"prefix": rng.choice(["urn:uuid:", "x:", "http://example.org/"])}
            params = json.dumps(self.cfg)
        ctx.note("root", self.name, json.dumps(self.cfg, sort_keys=True), self.spec)
        if rng.random() < 0.2:
            return self.write_independently()
        s = lib.ocfl.StorageRoot(root=self.dir + ("" if rng.random() < 0.9 else ""), layout_name=self.name, spec_version=self.spec if rng.random() < 0.3 else None)
        kw = {"layout_params": params} if params or rng.random() < 0.5 else {}
        FS.start()
        ctx.call("initialize", s.initialize, spec_version=self.spec, **kw)
        ev = FS.stop()
        for e in ev:
            ctx.check(e["op"] in ("read", "list") or e["path"] == self.dir or e["path"].startswith(self.dir + "/"), "initialize writes elsewhere", "%s", e)
        tree = read_tree(self.dir)
        ctx.check(tree.pop("0=ocfl_" + self.spec, None) == ("ocfl_%s\n" % self.spec).encode(), "root declaration wrong or missing")
        lay = json.loads(tree.pop("ocfl_layout.json"))
        ctx.check(lay.get("extension") == c13.CANON[self.kind] and isinstance(lay.get("description"), str) and set(lay) == {"extension", "description"}, "layout file wrong", "%s", lay)
        if self.cfg:
            c = json.loads(tree.pop("extensions/%s/config.json" % c13.CANON[self.kind]))
            ctx.check(c == dict(self.cfg, extensionName=c13.CANON[self.kind]), "stored layout parameters differ", "%s, given %s", c, self.cfg)
        ctx.check(not tree, "initialize wrote other files", "%s", sorted(tree))
        before = snapshot(self.dir)
        ctx.refused("initialize where something exists", lib.StorageRootException, lib.ocfl.StorageRoot(root=self.dir, layout_name=rng.choice([self.name, None])).initialize)
        ctx.check(snapshot(self.dir) == before, "refused initialize changed the root")
        return s

    def write_independently(self):
        self.ctx.count("root written independently")
        os.makedirs(self.dir)
        self.put("0=ocfl_" + self.spec, b"ocfl_" + self.spec.encode() + b"\n")
        ext = self.name if self.ctx.rng.random() < 0.3 and self.cfg is None else c13.CANON[self.kind]
        self.put("ocfl_layout.json", json.dumps({"description": "anything", "extension": ext, "more": 1}).encode())
        if self.cfg:
            self.put("extensions/%s/config.json" % c13.CANON[self.kind], json.dumps(dict(self.cfg, extensionName=c13.CANON[self.kind], extra="x")).encode())
        if self.ctx.rng.random() < 0.5:
            self.put("README for people.md", b"text")
            self.put("ocfl_1.1.md", b"text")
        return None

    def put(self, rel, data):
        p = os.path.join(self.dir, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as fh:
            fh.write(data)

    def handle(self, same):
        """An instance to work through: the one given, or a new one opened in one of several ways."""
        rng = self.ctx.rng
        r = rng.random()
        if same is not None and r < 0.4:
            return same
        if r < 0.8:
            return lib.ocfl.StorageRoot(root=self.dir)
        if r < 0.9:
            return lib.ocfl.StorageRoot(root=self.dir, spec_version=self.spec)
        return lib.ocfl.StorageRoot(root=self.dir, layout_name=rng.choice(sorted(c13.NAMES)))

    def verify(self, same):
        ctx = self.ctx
        want = sorted((p, i) for p, (i, _) in self.objects.items())
        for who, s in (("new instance", lib.ocfl.StorageRoot(root=self.dir)), ("used instance", same)):
            if s is None:
                continue
            got = ctx.call("list_objects", lambda s=s: list(s.list_objects()))
            ctx.check(sorted(got) == want, "listing differs from the objects added (%s)" % who, "got %s want %s", sorted(set(got) - set(want)) or got, sorted(set(want) - set(got)))
            ctx.check(s.num_objects == len(want), "num_objects after listing is wrong", "%s, %d objects", s.num_objects, len(want))
            ctx.check(s.num_traversal_errors == 0, "traversal errors in a sound root", "%s", s.num_traversal_errors)
            paths = ctx.call("object_paths", lambda s=s: list(s.object_paths()))
            ctx.check(sorted(paths) == [p for p, _ in want], "object_paths differs from the objects added")
        s = lib.ocfl.StorageRoot(root=self.dir)
        ok = ctx.call("validate root", s.validate)
        ctx.check(ok is True and s.num_objects == s.good_objects == len(want), "sound root is not valid", "%s %d/%d %s %s", ok, s.good_objects, s.num_objects, s.log.codes, s.errors[:2])
        o = lib.ocfl.StorageRoot(root=self.dir)
        for p, (i, tree) in self.objects.items():
            ctx.check(ctx.call("object_path", o.object_path, i) == p, "reopened root gives another path for a stored object", "%s %s", i, p)
            got = read_tree(os.path.join(self.dir, p))
            for q in self.objects:       # nothing nested: would have been refused
                ctx.check(q == p or not q.startswith(p + "/"), "object stored inside another", "%s in %s", q, p)
            ctx.check(got == tree, "stored object differs from the one supplied", "%s: %s", i, sorted(k for k in set(got) | set(tree) if got.get(k) != tree.get(k))[:4])

    def add(self, same, ident):
        """A step: add an object, or see it refused, as the model says."""
        ctx, rng = self.ctx, self.ctx.rng
        have = {i for i, _ in self.objects.values()}
        p = want_path(self.kind, self.cfg, ident)
        o, d = make_object(ctx, ident, self.spec, "src")
        why = None
        if p is c13.REFUSED:
            why = "layout"
        elif not usable(p):
            return
        elif ident in have:
            why = "in use"
        elif p.split("/")[0] in ("extensions", "ocfl_layout.json"):
            why = "reserved"
        elif os.path.lexists(os.path.join(self.dir, p)):
            why = "exists"
        elif any(p.startswith(q + "/") for q in self.objects):
            why = "inside"
        else:
            parts = p.split("/")
            if any(os.path.isfile(os.path.join(self.dir, *parts[:k])) for k in range(1, len(parts))):
                why = "under a file"
        tree = read_tree(d)
        src0 = snapshot(d)
        before = snapshot(self.dir)
        s = self.handle(same)
        ctx.log("add %r at %r: %s" % (ident[:60], p if p is not c13.REFUSED else None, why or "ok"))
        ctx.count("add: " + (why or "ok"))
        ctx.sig.append(("add", why, ident[:40]))
        arg = d if rng.random() < 0.8 else (d + "/" if rng.random() < 0.5 else os.path.relpath(d))
        FS.start()
        try:
            if why:
                ctx.refused("add (%s)" % why, lib.StorageRootException, s.add, arg)
            else:
                r = ctx.call("add", s.add, arg)
                ctx.check(r == (ident, p), "add returns something else", "%s want %s", r, (ident, p))
        finally:
            ev = FS.stop()
        ctx.check(snapshot(d) == src0, "add changed the source")
        if why:
            diff = snap_diff(before, snapshot(self.dir))
            ctx.check(not diff, "refused addition changed the root (%s)" % why, diff)
            ctx.check(not [e for e in ev if e["op"] not in ("read", "list")], "refused addition wrote something (%s)" % why, "%s", ev[:3])
        else:
            full = os.path.join(self.dir, p)
            for e in ev:
                if e["op"] not in ("read", "list"):
                    ctx.check(e["path"].startswith(full + "/") or full.startswith(e["path"] + "/") or e["path"] == full, "add writes elsewhere", "%s", e)
            after = snapshot(self.dir)
            for k, v in before.items():
                ctx.check(after.get(k) == v, "add changed something that was there", k)
            self.objects[p] = (ident, tree)

    def bad(self, same):
        """A step: something that must not be added."""
        ctx, rng = self.ctx, self.ctx.rng
        have = sorted(i for i, _ in self.objects.values())
        ident = ident_for(rng, self.kind, self.cfg, have)
        p = want_path(self.kind, self.cfg, ident)
        if p is c13.REFUSED or not usable(p):
            return
        what = rng.choice(["none", "file", "empty dir", "no declaration", "other declaration", "no inventory", "bad json", "bad inventory", "no id", "later spec", "later declaration", "root itself"])
        o, d = make_object(ctx, ident, self.spec, "src")
        inv = json.loads(o.files["inventory.json"])
        if what == "none":
            shutil.rmtree(d)
        elif what == "file":
            shutil.rmtree(d)
            with open(d, "wb") as fh:
                fh.write(b"x")
        elif what == "empty dir":
            shutil.rmtree(d)
            os.mkdir(d)
        elif what == "no declaration":
            os.remove(os.path.join(d, "0=ocfl_object_" + o.spec))
        elif what == "other declaration":
            os.rename(os.path.join(d, "0=ocfl_object_" + o.spec), os.path.join(d, rng.choice(["0=ocfl_" + o.spec, "0=frog", "1=ocfl_object_" + o.spec, "ocfl_object_" + o.spec, "0=ocfl_object_2.0"])))
        elif what == "no inventory":
            os.remove(os.path.join(d, "inventory.json"))
        elif what == "bad json":
            with open(os.path.join(d, "inventory.json"), "wb") as fh:
                fh.write(rng.choice([b"", b"{", b"[]", b"null", b"\xff", o.files["inventory.json"].rstrip()[:-1]]))
        elif what in ("bad inventory", "no id"):
            if what == "no id":
                rng.choice([lambda: inv.pop("id"), lambda: inv.update(id=""), lambda: inv.update(id=5)])()
            else:
                rng.choice([lambda: inv.pop("head"), lambda: inv.pop("type"), lambda: inv.update(head="v999"), lambda: inv.pop("versions"), lambda: inv.pop("manifest"), lambda: inv.update(digestAlgorithm="nope")])()
            foreign.rewrite_inventory(d, "inventory.json", inv, o.algs[-1])
        elif what in ("later spec", "later declaration"):
            if self.spec != "1.0":
                return
            inv["type"] = "https://ocfl.io/1.1/spec/#inventory"
            if what == "later spec":
                foreign.rewrite_inventory(d, "inventory.json", inv, o.algs[-1])
            os.remove(os.path.join(d, "0=ocfl_object_" + o.spec))
            with open(os.path.join(d, "0=ocfl_object_1.1"), "wb") as fh:
                fh.write(b"ocfl_object_1.1\n")
        else:
            d = self.dir
        before, src0 = snapshot(self.dir), snapshot(d)
        ctx.log("bad addition: " + what)
        ctx.count("add refused: " + what)
        ctx.sig.append(("bad", what))
        ctx.refused("add of " + what, lib.StorageRootException, self.handle(same).add, d)
        diff = snap_diff(before, snapshot(self.dir))
        ctx.check(not diff, "refused addition changed the root (%s)" % what, diff)
        ctx.check(snapshot(d) == src0, "refused addition changed the source (%s)" % what)
        if os.path.isfile(d):
            os.remove(d)


def no_layout(ctx):
    """A root without layout: can be created, is valid, lists what is in it, cannot be added to."""
    rng = ctx.rng
    d = ctx.path("root")
    spec = rng.choice(["1.0", "1.1"])
    ctx.note("no layout", spec, ctx.index)
    s = lib.ocfl.StorageRoot(root=d)
    ctx.call("initialize", s.initialize, spec_version=spec)
    ctx.check(os.listdir(d) == ["0=ocfl_" + spec], "files of a root without layout", "%s", os.listdir(d))
    want = []
    for k in range(rng.choice([0, 1, 2])):
        o, src = make_object(ctx, "obj%d" % k, spec, "src")
        p = rng.choice(["a/b/o%d", "x%d", "y/%d"]) % k
        shutil.copytree(src, os.path.join(d, p))
        want.append((p, o.id))
    for s2 in (s, lib.ocfl.StorageRoot(root=d)):
        got = ctx.call("list_objects", lambda s2=s2: list(s2.list_objects()))
        ctx.check(sorted(got) == sorted(want), "listing of root without layout", "%s want %s", got, want)
        ctx.check(ctx.call("validate", s2.validate) is True, "root without layout is not valid", "%s", s2.log.codes)
    o, src = make_object(ctx, "new", spec, "src")
    before = snapshot(d)
    ctx.refused("add without layout", lib.StorageRootException, lib.ocfl.StorageRoot(root=d).add, src)
    ctx.refused("object_path without layout", lib.StorageRootException, lib.ocfl.StorageRoot(root=d).object_path, "x")
    ctx.check(snapshot(d) == before, "refused addition changed the root without layout")


def not_created(ctx):
    """Creations that must be refused leave nothing behind."""
    rng = ctx.rng
    kind = rng.choice(["exists file", "exists dir", "no parent", "layout", "spec", "params"])
    ctx.note("not created", kind, ctx.index % 50)
    d = ctx.path("root")
    if kind == "exists file":
        with open(d, "wb") as fh:
            fh.write(b"x")
    elif kind == "exists dir":
        os.mkdir(d)
        if rng.random() < 0.5:
            with open(os.path.join(d, "f"), "wb") as fh:
                fh.write(b"x")
    elif kind == "no parent":
        d = ctx.path("a", "b")
    before = snapshot(ctx.dir)
    name = rng.choice(sorted(c13.NAMES)) if kind != "layout" else rng.choice(["nope", "0004", "", " "]) or "nope"
    params = None
    if kind == "params":
        name = rng.choice(["0003", "nnnn-tuple-tree", "nnnn-uuid-quadtree"])
        params = rng.choice(["{", "[]", "3", "", "null", "{}", '{"extensionName": "x", "tupleSize": 3, "prefix": "a"}', '{"tupleSize": 99, "prefix": ""}'])
    spec = rng.choice(["2.0", "1.2", "0.9", "", "1"]) if kind == "spec" else None

    def go():
        s = lib.ocfl.StorageRoot(root=d, layout_name=name)
        s.initialize(spec_version=spec, layout_params=params)
    ctx.refused("creation (%s)" % kind, lib.StorageRootException, go)
    diff = snap_diff(before, snapshot(ctx.dir))
    ctx.check(not diff, "refused creation left something (%s)" % kind, diff)


def other_file_system(ctx):
    """Root, and some of the objects added, in the memory file system."""
    rng = ctx.rng
    root = Root(ctx)
    bucket = "vf14-%d-%d" % (os.getpid(), ctx.index)
    url = "memory://%s/%s" % (bucket, rng.choice(["root", "a/root", "my root"]))
    top = "/" + url.split("://")[1]
    memory().makedirs(os.path.dirname(top), exist_ok=True)
    try:
        s = ctx.call("StorageRoot", lib.ocfl.StorageRoot, root=url, layout_name=root.name)
        ctx.call("initialize", s.initialize, spec_version=root.spec)
        ctx.note("memory", root.name)
        ctx.refused("initialize where something exists", lib.StorageRootException, lib.ocfl.StorageRoot(root=url, layout_name=root.name).initialize)
        objects, base = {}, memory_tree(url)
        for k in range(rng.choice([1, 2, 4])):
            ident = ident_for(rng, root.kind, root.cfg, [i for i, _ in objects.values()])
            p = want_path(root.kind, root.cfg, ident)
            if p is c13.REFUSED or not usable(p) or gen.conflict(p, list(objects) + list(base) + ["extensions"]):
                continue
            o, d = make_object(ctx, ident, root.spec, "src%d" % k)
            tree = read_tree(d)
            src = d
            if rng.random() < 0.6:
                src = "memory://%s/in/obj%d" % (bucket, k)
                for f, b in tree.items():
                    with memory().open("/" + src.split("://")[1] + "/" + f, "wb") as fh:
                        fh.write(b)
                    memory().makedirs("/" + os.path.dirname(src.split("://")[1] + "/" + f), exist_ok=True)
            r = ctx.call("add", lib.ocfl.StorageRoot(root=url).add, src)
            ctx.check(r == (ident, p), "add returns something else", "%s want %s", r, (ident, p))
            objects[p] = (ident, tree)
            ctx.refused("add again", lib.StorageRootException, lib.ocfl.StorageRoot(root=url).add, src)
            want = dict(base)
            for q, (_, t) in objects.items():
                want.update({q + "/" + f: b for f, b in t.items()})
            got = memory_tree(url)
            ctx.check(got == want, "files in the root differ from the objects added", "%s", sorted(set(got) ^ set(want))[:4])
            ctx.count("object added in memory file system")
        s2 = lib.ocfl.StorageRoot(root=url)
        got = ctx.call("list_objects", lambda: list(s2.list_objects()))
        ctx.check(sorted(got) == sorted((p, i) for p, (i, _) in objects.items()) and s2.num_objects == len(objects), "listing differs from the objects added (memory)", "%s", got)
        s2 = lib.ocfl.StorageRoot(root=url)
        ok = ctx.call("validate root", s2.validate)
        ctx.check(ok is True and s2.num_objects == s2.good_objects == len(objects), "sound root is not valid", "%s %s %s", ok, s2.log.codes, s2.errors[:2])
        for p, (i, _) in objects.items():
            ctx.check(s2.object_path(i) == p, "reopened root gives another path for a stored object", "%s %s", i, p)
    finally:
        memory().rm("/" + bucket, recursive=True)


def case(ctx):
    rng = ctx.rng
    if ctx.index % 12 == 5:
        return other_file_system(ctx)
    r = rng.random()
    if r < 0.06:
        return no_layout(ctx)
    if r < 0.14:
        return not_created(ctx)
    root = Root(ctx)
    same = root.create()
    root.verify(same)
    for _ in range(rng.choice([2, 3, 4, 6, 9])):
        have = sorted(i for i, _ in root.objects.values())
        q = rng.random()
        if q < 0.25:
            root.bad(same)
        elif have and q < 0.38:
            root.add(same, rng.choice(have))
        elif q < 0.46 and root.kind in ("0002", "quoted"):
            root.add(same, rng.choice(["extensions", "ocfl_layout.json", "0=ocfl_" + root.spec, ".", "..", "a/b", "README for people.md"]))
        else:
            root.add(same, ident_for(rng, root.kind, root.cfg, have))
        if rng.random() < 0.5:
            root.verify(same)
    root.verify(same)
    ctx.count("objects stored", len(root.objects))
    return None
