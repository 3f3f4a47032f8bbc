"""C15: storage root validation reports exactly the faults present."""
import json
import os

from vf import foreign, gen, lib, oracle
from vf.common import HarnessError
from vf.monitors import snap_diff, snapshot
from vf.props import c13

ID = "C15"
LEVEL = "exploration"
QUICK, THOROUGH = 6000, 200000
MIN_DISTINCT = 300
RULE = ("Roots written independently: 0-5 objects at depths 1-5 (valid, damaged, of a later specification than the root), root files, declared layouts with parameters, extensions, then 0-3 faults (stray file beside directories, "
        "empty directory, several or unsupported or foreign declarations in a hierarchy directory, file in extensions, unregistered extension) and for some roots one structural fault (declaration missing, doubled, unsupported, "
        "altered, unexpected version; layout file of ten malformed kinds; unknown layout; bad layout parameters). Expected verdict, set of error codes, number of traversal errors, objects checked and found valid, and the "
        "paths in the error list are computed from the composition; each root is validated by a new and a used instance and with objects or digests skipped. Distinct by composition.")

ORDINARY = ["a", "b", "c1", "objs", "deep dir", "x.y", "0", "00", "ocfl_layout", "v1", "content", "extension", "Extensions", "\u00e9", "%2e", "logs", "1=x", "0x", "=0"]


def damage(rng, o, full):
    """Damage the object o written at full. Returns what was done; "content" and "sidecar" are seen through digests only."""
    def put(rel, data):
        with open(os.path.join(full, rel), "wb") as fh:
            fh.write(data)
    what = rng.choice(["content", "content gone", "stray", "sidecar", "version dir", "inventory gone", "json", "declaration content", "head"])
    fs = sorted(o.content)
    if what.startswith("content") and not fs:
        what = "stray"
    if what == "content":
        f = os.path.join(full, rng.choice(fs))
        with open(f, "ab") as fh:
            fh.write(b"x")
    elif what == "content gone":
        os.remove(os.path.join(full, rng.choice(fs)))
    elif what == "stray":
        put("stray.txt", b"x")
    elif what == "sidecar":
        put("inventory.json." + o.algs[-1], b"0" * oracle.HEXLEN[o.algs[-1]] + b" inventory.json\n")
    elif what == "version dir":
        os.mkdir(os.path.join(full, "v99"))
    elif what == "inventory gone":
        os.remove(os.path.join(full, "inventory.json"))
    elif what == "json":
        put("inventory.json", b"{")
    elif what == "declaration content":
        put("0=ocfl_object_" + o.spec, b"ocfl_object_9\n")
    else:
        inv = json.loads(o.files["inventory.json"])
        inv["head"] = "v77"
        foreign.rewrite_inventory(full, "inventory.json", inv, o.algs[-1])
    return what


# Names close to those that mean something in a root, which mean nothing here ("extensions" only at the top)
ALMOST = ["extensions", "extensions2", "extensions-old", "extensions.bak", "Extensions", "extension", ".extensions", "ocfl_layout", "ocfl_layout.json", "logs", "lost+found", ".git", "inventory.json", "v1", "content", "tmp", ".snapshot",
          "0003-hash-and-id-n-tuple-storage-layout", "ocfl_object_1.1", "config.json", "_", "deposit"]


class Root:
    def __init__(self, ctx, name="root"):
        rng = ctx.rng
        self.ctx = ctx
        self.dir = ctx.path(name)
        self.big = False
        self.spec = rng.choice(["1.0", "1.1", "1.1"])
        self.codes = set()           # expected traversal error codes
        self.n_trav = 0
        self.places = []             # (code, path) of each fault of the hierarchy
        self.objects = {}            # path -> valid?
        self.ids = {}
        self.used = set()            # directories that are taken (no content may be added below)
        os.makedirs(self.dir)

    def put(self, rel, data):
        p = os.path.join(self.dir, rel)
        if os.path.isdir(p):
            return
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as fh:
            fh.write(data)

    def place(self):
        """A fresh directory path that does not conflict with others."""
        rng = self.ctx.rng
        for _ in range(60):
            parts = []
            bases = sorted(u for u in self.used)
            if bases and rng.random() < 0.5:
                b = rng.choice(bases)
                parts = b.split("/")[:-1]
            parts += [rng.choice(ORDINARY) if rng.random() < 0.7 else gen.segment(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
            if self.big and rng.random() < 0.1:
                parts = ["deep"] * rng.choice([10, 34, 70]) + parts
            if rng.random() < 0.15:
                parts[rng.randrange(len(parts))] = rng.choice(ALMOST)
            p = "/".join(parts)
            if parts[0] in ("extensions", "ocfl_layout.json", "1=x", "extra") or parts[0].startswith(("README", "ocfl_1.1.")) or parts[0].startswith("0=ocfl") or len(parts) > (90 if self.big else 7):
                continue
            if gen.conflict(p, self.used) or os.path.lexists(os.path.join(self.dir, p)) or any(x.startswith("0=") for x in parts[:1]):
                continue
            self.used.add(p)
            return p
        p = "fallback%d" % rng.randrange(10 ** 9)
        self.used.add(p)
        return p

    def add_object(self):
        ctx, rng = self.ctx, self.ctx.rng
        p = self.place()
        o = foreign.make(rng, ctx.tier, nv=rng.choice([1, 1, 2]), simple_paths=True)
        full = os.path.join(self.dir, p)
        foreign.write(o, full)
        good = True
        if rng.random() < 0.35:
            good = False
            what = damage(rng, o, full)
            self.what = what
            if not oracle.check_object(full):
                raise HarnessError("damage %s did not damage" % what)
            ctx.log("object %s damaged: %s" % (p, what))
            if what in ("content", "sidecar"):
                self.digest_only = getattr(self, "digest_only", set()) | {p}
            ctx.sig.append(("damaged", what))
        if o.spec > self.spec:
            self.places.append(("E081", p))
            self.codes.add("E081")
            self.n_trav += 1
            ctx.sig.append(("E081",))
        self.objects[p] = good
        self.ids[p] = o.id
        ctx.sig.append(("object", p.count("/"), good))

    def fault(self):
        """One fault of the hierarchy."""
        ctx, rng = self.ctx, self.ctx.rng
        what = rng.choice(["stray", "stray beside dirs", "empty", "empty deep", "two declarations", "unsupported", "foreign", "ext file"])
        ctx.log("fault " + what)
        ctx.sig.append(("fault", what))
        ctx.count("fault: " + what)
        if what == "stray":
            p = self.place()
            for n in rng.sample(["README", "x.txt", ".hidden", "inventory.json", "1=ocfl_object_1.0", "00=x", "ocfl_object_1.1"], rng.choice([1, 1, 2])):
                self.put(p + "/" + n, b"x")
            code = "E072"
        elif what == "stray beside dirs":
            p = self.place()
            self.put(p + "/f", b"x")
            sub = rng.choice(["d", "v1"])
            if rng.random() < 0.5:
                os.mkdir(os.path.join(self.dir, p, sub))       # nothing below a directory with files is looked at
            else:
                self.put(p + "/" + sub + "/0=ocfl_object_1.0", b"ocfl_object_1.0\n")
            code = "E072"
        elif what == "empty":
            p = self.place()
            os.makedirs(os.path.join(self.dir, p))
            code = "E073"
        elif what == "empty deep":
            p = self.place()
            os.makedirs(os.path.join(self.dir, p, "a", "b"))
            os.makedirs(os.path.join(self.dir, p, "a", "c"))
            self.n_trav += 1
            code = "E073"
        elif what == "two declarations":
            p = self.place()
            for n in rng.sample(["0=ocfl_object_1.0", "0=ocfl_object_1.1", "0=ocfl_object_2.0", "0=frog", "0="], 2):
                self.put(p + "/" + n, n[2:].encode() + b"\n")
            code = "E003d"
        elif what == "unsupported":
            p = self.place()
            n = rng.choice(["0=ocfl_object_2.0", "0=ocfl_object_0.9", "0=ocfl_object_1.10", "0=ocfl_object_1.2", "0=ocfl_object_01.0"])
            self.put(p + "/" + n, n[2:].encode() + b"\n")
            code = "E004a"
        elif what == "foreign":
            p = self.place()
            n = rng.choice(["0=frog", "0=ocfl_1.1", "0=ocfl_object", "0=ocfl_object_", "0=ocfl_object_1.1x", "0=ocfl_object_1", "0=OCFL_object_1.1", "0=", "0=xocfl_object_1.1", "0=ocfl_object_1.1 "])
            self.put(p + "/" + n, n[2:].encode() + b"\n")
            code = "E004b"
        else:
            n = "extensions/" + rng.choice(["file.txt", "config.json", "0002-flat-direct-storage-layout.md"])
            if os.path.lexists(os.path.join(self.dir, n)):
                return
            self.put(n, b"{}")
            code = "E086"
        self.codes.add(code)
        self.n_trav += 1
        self.places.append((code, p + "/a/b" if what == "empty deep" else n.split("/", 1)[1] if what == "ext file" else p))
        if what == "empty deep":
            self.places.append((code, p + "/a/c"))

    def layout(self):
        """A well formed layout file, maybe with parameters."""
        rng = self.ctx.rng
        name = rng.choice(sorted(c13.NAMES))
        kind = c13.NAMES[name]
        self.put("ocfl_layout.json", json.dumps({"extension": name, "description": rng.choice(["", "x", "\u00e9"]), **({"more": []} if rng.random() < 0.3 else {})}).encode())
        if rng.random() < 0.6:
            cfg = {"0003": {"digestAlgorithm": "sha512", "tupleSize": 2, "numberOfTuples": 4}, "tuple": {"tupleSize": 3}, "uuid": {"prefix": "x:"}}.get(kind, {})
            self.put("extensions/%s/config.json" % c13.CANON[kind], json.dumps(dict(cfg, extensionName=c13.CANON[kind])).encode())

    def structural(self):
        """One fault of the root itself: validation stops with this one code."""
        ctx, rng = self.ctx, self.ctx.rng
        decl = "0=ocfl_" + self.spec
        what = rng.choice(["none", "other tag", "two", "two same", "unsupported", "object", "content", "expected", "layout json", "layout type", "layout keys", "unknown layout", "parameters", "parameters"])
        ctx.log("structural fault " + what)
        ctx.sig.append(("structural", what))
        ctx.count("structural fault: " + what)
        if what == "none":
            os.remove(os.path.join(self.dir, decl))
            return "E069a"
        if what == "other tag":
            os.rename(os.path.join(self.dir, decl), os.path.join(self.dir, rng.choice(["1=ocfl_1.1", "ocfl_1.1", "00=ocfl_1.1", "0ocfl_1.0", "0-ocfl_1.0"])))
            return "E069a"
        if what in ("two", "two same"):
            n = "0=frog" if what == "two" else "0=ocfl_" + ("1.0" if self.spec == "1.1" else "1.1")
            self.put(n, n[2:].encode() + b"\n")
            return "E069b"
        if what in ("unsupported", "object"):
            os.remove(os.path.join(self.dir, decl))
            n = rng.choice(["0=ocfl_2.0", "0=ocfl_1.10", "0=ocfl_1.1x", "0=ocfl_", "0=ocfl", "0=ocfl_01.0", "0=OCFL_1.1"]) if what == "unsupported" else "0=ocfl_object_" + self.spec
            self.put(n, n[2:].encode() + b"\n")
            return "E069c"
        if what == "content":
            self.put(decl, rng.choice([b"", b"ocfl\n", b"ocfl_9.9\n", b"ocfl_object_" + self.spec.encode() + b"\n", b"OCFL_" + self.spec.encode() + b"\n", b"\xff\xfe", b"ocfl_" + (b"1.0" if self.spec == "1.1" else b"1.1") + b"\n"]))
            return "E069e"
        if what == "expected":
            self.expect_spec = "1.0" if self.spec == "1.1" else "1.1"
            return "E069d"
        if what == "layout json":
            self.put("ocfl_layout.json", rng.choice([b"", b"{", b"{'a': 1}", b"\xff\xff", b'{"extension": "0002",}']))
            return "E070a"
        if what == "layout type":
            self.put("ocfl_layout.json", rng.choice([b"[]", b'"0002"', b"3", b"null", b'[{"extension": "0002", "description": "x"}]']))
            return "E070b"
        if what == "layout keys":
            self.put("ocfl_layout.json", json.dumps(rng.choice([{}, {"extension": "0002"}, {"description": "x"}, {"extension": 2, "description": "x"}, {"extension": "0002", "description": None}, {"extension": ["0002"], "description": "x"},
                                                             {"key": "0002", "description": "x"}])).encode())
            return "E070c"
        if what == "unknown layout":
            self.put("ocfl_layout.json", json.dumps({"extension": rng.choice(["nope", "0004-hashed-n-tuple-storage-layout", "", "0002 ", "FLAT-DIRECT", "0003-hash-and-id-n-tuple-storage-layout.html"]), "description": "x"}).encode())
            return "E071"
        kind = rng.choice(["0003", "tuple", "uuid", "0002"])
        self.put("ocfl_layout.json", json.dumps({"extension": c13.CANON[kind], "description": "x"}).encode())
        good = {"0003": {"digestAlgorithm": "sha256", "tupleSize": 3, "numberOfTuples": 3}, "tuple": {"tupleSize": 3}, "uuid": {"prefix": "x:"}, "0002": {}}[kind]
        bad = [b"{", b"[]", b"null", b"", json.dumps(good).encode(), json.dumps(dict(good, extensionName="other")).encode(), json.dumps(dict(good, extensionName=None)).encode()] + [json.dumps(dict(good, extensionName=x)).encode() for x in rng.sample(c13.near(c13.CANON[kind]), 4)]
        nm = c13.CANON[kind]
        if kind == "0003":
            bad += [json.dumps(dict(good, extensionName=nm, **x)).encode() for x in ({"tupleSize": 33}, {"tupleSize": 0}, {"numberOfTuples": -1}, {"tupleSize": 32, "numberOfTuples": 32}, {"digestAlgorithm": "nope"}, {"tupleSize": "3"}, {"digestAlgorithm": None})]
        elif kind == "tuple":
            bad += [json.dumps(dict(good, extensionName=nm, tupleSize=x)).encode() for x in (1, 7, "2", None, 2.5)]
        elif kind == "uuid":
            bad += [json.dumps(dict(good, extensionName=nm, prefix=x)).encode() for x in ("", None, 3)]
        self.put("extensions/%s/config.json" % nm, rng.choice(bad))
        return "E071b"


def compose(ctx, name="root", faults=True, structural=0.25, big=False):
    """A root with a known composition. Returns it, with expected codes and warnings, and the structural fault or None."""
    rng = ctx.rng
    r = Root(ctx, name)
    r.big = big
    r.put("0=ocfl_" + r.spec, b"ocfl_" + r.spec.encode() + b"\n")
    r.expect_spec = None
    for _ in range(rng.choice([40, 70, 130] if big else [0, 1, 2, 3, 5])):
        r.add_object()
    if rng.random() < 0.4:
        r.layout()
    warn = set()
    if rng.random() < 0.25:
        n = rng.choice(["0002-flat-direct-storage-layout", "0003-hash-and-id-n-tuple-storage-layout", "my-extension"])
        r.put("extensions/%s/notes.txt" % n, b"x")
        r.put("extensions/%s/sub/0=ocfl_object_1.0" % n, b"ocfl_object_1.0\n")     # nothing in extensions is an object
    if rng.random() < 0.25:
        r.put(rng.choice(["README.md", "ocfl_1.1.md", "ocfl_1.1.txt", "extra", "1=x"]), b"x")
    for _ in range(rng.choice([0, 12, 30] if big else [0, 0, 1, 1, 2, 3]) if faults else 0):
        r.fault()
    stop = r.structural() if rng.random() < structural else None
    ctx.note("root", r.spec, len(r.objects), stop)
    if os.path.isdir(os.path.join(r.dir, "extensions")):
        for n in os.listdir(os.path.join(r.dir, "extensions")):
            if os.path.isdir(os.path.join(r.dir, "extensions", n)) and n not in ("0002-flat-direct-storage-layout", "0003-hash-and-id-n-tuple-storage-layout"):
                warn.add("W901")
    r.warn = warn
    return r, stop


def case(ctx):
    rng = ctx.rng
    r, stop = compose(ctx, big=ctx.index % 500 == 250)
    warn = r.warn
    before = snapshot(r.dir)
    n_obj, n_good = len(r.objects), sum(r.objects.values())
    one = lib.ocfl.StorageRoot(root=r.dir, spec_version=r.expect_spec)
    kws = [{}, {"check_digests": False}, {"validate_objects": False}, {"log_warnings": True}, {"log_errors": False}, {"max_errors": 1}]
    for k, kw in enumerate([{}] + rng.sample(kws, 3) + [{}]):
        s = one if k in (1, 3, 4) else lib.ocfl.StorageRoot(root=r.dir, spec_version=r.expect_spec)
        ok = ctx.call("validate", s.validate, **kw)
        errs = lib_codes(s, "E")
        if stop:
            ctx.check(ok is False, "faulty root is valid: " + stop, "%s", kw)
            ctx.check(errs == {stop}, "structural fault of root reported under other codes", "%s expected %s", errs, stop)
            ctx.check(s.num_objects == 0 and s.good_objects == 0 and s.errors == [], "objects counted although root structure is broken", "%s/%s %s", s.good_objects, s.num_objects, s.errors[:1])
            continue
        good = n_good
        if kw.get("check_digests") is False:
            good += len([p for p in getattr(r, "digest_only", ()) if not r.objects[p]])
        want_n, want_g = (0, 0) if kw.get("validate_objects") is False else (n_obj, good)
        want_ok = not r.codes and (kw.get("validate_objects") is False or good == n_obj)
        ctx.check(errs == r.codes, "codes differ from the faults present", "%s: got %s, present %s", kw, sorted(errs), sorted(r.codes))
        ctx.check((s.num_objects, s.good_objects) == (want_n, want_g), "numbers of objects wrong", "%s: %s good of %s, expected %s of %s", kw, s.good_objects, s.num_objects, want_g, want_n)
        ctx.check(ok is want_ok, "verdict of root wrong", "%s: %s expected %s (codes %s, %s good of %s)", kw, ok, want_ok, errs, s.good_objects, s.num_objects)
        ctx.check(s.num_traversal_errors == r.n_trav and s.log.num_errors == r.n_trav, "number of traversal errors wrong", "%s: %s, %s logged, expected %s", kw, s.num_traversal_errors, s.log.num_errors, r.n_trav)
        w = lib_codes(s, "W")
        ctx.check(w == warn, "warnings about extensions differ", "%s expected %s", w, warn)
        shown = [p for p, _ in s.errors]
        bad = {p for p, g in r.objects.items() if not g and (kw.get("check_digests", True) or p not in getattr(r, "digest_only", ()))}
        if kw.get("validate_objects") is False:
            ctx.check(shown == [], "errors of objects listed though not validated")
        elif kw.get("log_warnings"):
            ctx.check((bad <= set(shown) or len(shown) == 100) and set(shown) <= set(r.objects), "error list misses invalid objects", "%s of %s", shown, bad)
        elif "max_errors" in kw:
            ctx.check(len(shown) == min(1, len(bad)) and set(shown) <= bad, "error list not limited as asked", "%s of %s", shown, bad)
        else:
            ctx.check(sorted(shown) == sorted(bad), "error list differs from the invalid objects", "%s expected %s", sorted(shown), sorted(bad))
    s = lib.ocfl.StorageRoot(root=r.dir, spec_version=r.expect_spec)
    if stop:
        ctx.refused("list_objects of broken root", lib.StorageRootException, lambda: list(s.list_objects()))
    else:
        got = ctx.call("list_objects", lambda: list(s.list_objects()))
        ctx.check(sorted(p for p, _ in got) == sorted(r.objects), "listing differs from the objects present", "%s expected %s", sorted(p for p, _ in got), sorted(r.objects))
        for p, i in got:
            if r.objects[p]:
                ctx.check(i == r.ids[p], "listing gives another identifier", "%s: %s expected %s", p, i, r.ids[p])
        ctx.check(s.num_objects == n_obj and s.num_traversal_errors == r.n_trav, "counts after listing wrong", "%s %s", s.num_objects, s.num_traversal_errors)
    diff = snap_diff(before, snapshot(r.dir))
    ctx.check(not diff, "validation changed the root", diff)


def lib_codes(s, kind):
    return {c for c in s.log.codes if c.startswith(kind)}
