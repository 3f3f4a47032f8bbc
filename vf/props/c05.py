"""C05: refused operations are reported and leave storage untouched."""
import copy
import json
import os
import shutil

from vf import foreign, gen, lib, oracle
from vf.monitors import FS, read_tree, snapshot, snap_diff, write_tree
from vf.session import Session

ID = "C05"
LEVEL = "exploration"
QUICK, THOROUGH = 800, 16000
MIN_DISTINCT = 60
RULE = ("Generated objects and sources; about ten operations per case that must be refused (see the counts for every reason), each with random otherwise valid options. "
        "Each must raise; the whole scratch area (objects, sources, destinations, parents) must be the same before and after, by snapshot and by the audit-hook trace of what was written. "
        "Afterwards the same operation with the fault removed must succeed. Distinct by reasons, configuration and object shape.")
OBJ = lib.ocfl.Object


class Bench:
    def __init__(self, ctx):
        self.ctx, self.rng = ctx, ctx.rng
        self.done = []

    def refuse(self, reason, fn, keep=()):
        """fn must raise and leave everything under the scratch directory as it was."""
        ctx = self.ctx
        before = snapshot(ctx.dir)
        FS.start()
        try:
            r = fn()
        except Exception as e:  # pylint: disable=broad-except
            err = e
        else:
            FS.stop()
            ctx.fail("not refused: " + reason, "returned %r; changes: %s" % (r, snap_diff(before, snapshot(ctx.dir))))
        finally:
            ev = FS.stop()
        ctx.stats["calls"] += 1
        after = snapshot(ctx.dir)
        ctx.check(before == after, "refusal changed storage: " + reason, "%s (%s)", snap_diff(before, after), str(err)[:200])
        touched = [e for e in ev if e["op"] not in ("mkdir",) and e.get("path", "").startswith(ctx.dir) and e.get("fresh") is False]
        ctx.check(not touched, "refusal rewrote existing files: " + reason, "%s", touched[:3])
        ctx.count("refused: " + reason)
        ctx.log("%s -> %s %s" % (reason, type(err).__name__, str(err)[:100]))
        self.done.append(reason)


def bad_alg(rng):
    return rng.choice(["sha3", "SHA512", "md6", "", "sha-256", "sha512 ", "blake2b", "crc32", "sha224", "sha512/256"])


def bad_meta(rng):
    """Metadata that no valid inventory can hold."""
    k = rng.choice(["created", "created", "created", "address", "type"])
    if k == "created":
        return lib.VersionMetadata(created=rng.choice(["2020-01-01", "2020-01-01T00:00:00", "2020-01-01T00:00Z", "yesterday", "2020-02-30T00:00:00Z", "2020-01-01 00:00:00Z",
                                                       "2020-01-01T24:00:00Z", "2020-01-01T00:00:00+99:00", "2020", "1577836800", " 2020-01-01T00:00:00Z"]), message="m", name="n")
    if k == "address":
        return lib.VersionMetadata(message="m", address="mailto:a@example.org")
    return lib.VersionMetadata(**{rng.choice(["message", "name", "created"]): rng.choice([5, ["x"], {"name": "x"}, True])})


def opts(rng):
    c = gen.config(rng)
    c["fixity"] = None if rng.random() < 0.6 else rng.sample(gen.FIXITY, 1)
    return c


def create_refusals(b, src, vsrc):
    """src: directory with files; vsrc: directory with v1.. directories."""
    ctx, rng = b.ctx, b.rng
    o = opts(rng)
    mk = rng.choice(["create", "build"])
    good = src if mk == "create" else vsrc

    def do(objdir, srcdir=good, ident="x", **over):
        ob = OBJ(identifier=ident, **dict(o, **over))
        return getattr(ob, mk)(srcdir=srcdir, objdir=objdir)
    new = ctx.path("new")
    todo = ["no identifier", "destination in use", "source missing", "unsupported digest", "unsupported fixity", "parent missing", "bad metadata"]
    if mk == "build":
        todo += ["version gap", "zero padding", "no versions"]
    for r in rng.sample(todo, 4):
        name = "%s: %s" % (mk, r)
        if r == "no identifier":
            b.refuse(name, lambda: do(new, ident=rng.choice([None, ""])))
        elif r == "bad metadata":
            if mk == "create":
                b.refuse(name, lambda: OBJ(identifier="x", **o).create(srcdir=good, objdir=new, metadata=bad_meta(rng)))
            else:
                ks = [int(n[1:]) for n in os.listdir(good)]
                b.refuse(name, lambda: OBJ(identifier="x", **o).build(srcdir=good, objdir=new, versions_metadata={rng.choice(ks): bad_meta(rng)}))
        elif r == "destination in use":
            d = ctx.path("used")
            kind = rng.choice(["object", "file in it", "hidden file", "directory in it", "is a file"])
            if kind == "object":
                shutil.copytree(ctx.path("obj"), d)
            elif kind == "is a file":
                write_tree(ctx.dir, {"used": b"x"})
            elif kind == "directory in it":
                os.makedirs(d + "/v9")
            else:
                write_tree(d, {".hidden" if kind == "hidden file" else "f": b"" if rng.random() < 0.5 else b"x"})
            b.refuse(name + " (%s)" % kind, lambda: do(d))
            if os.path.isdir(d):
                shutil.rmtree(d)
            else:
                os.remove(d)
        elif r == "source missing":
            miss = rng.choice([ctx.path("nothing"), ctx.path("no/where"), ctx.path("afile"), "zip://" + ctx.path("none.zip")])
            write_tree(ctx.dir, {"afile": b"x"})
            b.refuse(name, lambda: do(new, srcdir=miss))
        elif r == "unsupported digest":
            b.refuse(name, lambda: do(new, digest_algorithm=bad_alg(rng)))
        elif r == "unsupported fixity":
            b.refuse(name, lambda: do(new, fixity=rng.choice([["md5", bad_alg(rng)], [bad_alg(rng)]])))
        elif r == "parent missing":
            b.refuse(name, lambda: do(ctx.path("no-parent/sub/obj")))
        else:
            w = ctx.path("badsrc")
            shutil.rmtree(w, ignore_errors=True)
            if r == "version gap":
                ks = rng.choice([[2], [1, 3], [1, 2, 4], [2, 3], [1, 2, 3, 5, 6], [0, 2], list(range(1, 10)) + [11]])
                names = ["v%d" % k for k in ks]
            elif r == "zero padding":
                names = rng.choice([["v01"], ["v1", "v02"], ["v01", "v02"], ["v001", "v1"], ["v1", "v2", "v003"]])
            else:
                names = rng.choice([[], ["1"], ["v"], ["V1"], ["version1"], ["va"]])
            for n in names:
                write_tree(os.path.join(w, n), {"f": n.encode()})
            os.makedirs(w, exist_ok=True)
            write_tree(w, {"v1" if r == "no versions" else "README": b"a file"})
            b.refuse(name + " (%s)" % ",".join(names)[:20], lambda: do(new, srcdir=w))
    inv = ctx.call(mk + " after refusals", do, new)
    ctx.check(inv is not None and not oracle.check_object(new), "object created after refusals does not conform", "%s", oracle.check_object(new)[:2])
    shutil.rmtree(new)


def damage(rng, d, s):
    """One structural damage of the object at d; returns its name or None."""
    kind = rng.choice(["declaration missing", "declaration wrong", "sidecar missing", "inventory missing", "inventory not JSON", "inventory bad", "content missing",
                       "stray content", "stray file", "version inventory differs", "version missing", "root not head", "empty directory", "not an object", "second declaration"])
    j = lambda *p: os.path.join(d, *p)  # noqa: E731
    head = "v%d" % len(s.states)
    with open(j("inventory.json"), encoding="utf-8") as fh:
        inv = json.load(fh)
    if kind == "declaration missing":
        os.remove(j("0=ocfl_object_" + s.spec))
    elif kind == "declaration wrong":
        write_tree(d, {"0=ocfl_object_" + s.spec: b"ocfl_object_0.9\n"})
    elif kind == "second declaration":
        write_tree(d, {"0=ocfl_object_" + ("1.0" if s.spec == "1.1" else "1.1"): b"ocfl_object_1.0\n"})
    elif kind == "sidecar missing":
        os.remove(j("inventory.json." + s.alg))
    elif kind == "inventory missing":
        os.remove(j("inventory.json"))
    elif kind == "inventory not JSON":
        write_tree(d, {"inventory.json": b"{not json"})
    elif kind == "inventory bad":
        k = rng.choice(["id", "head", "versions", "manifest", "digestAlgorithm", "type"])
        if rng.random() < 0.5:
            del inv[k]
        else:
            inv[k] = rng.choice([None, 3, [], ""] + (["v77"] if k != "id" else []))
        foreign.rewrite_inventory(d, "inventory.json", inv, s.alg)
        foreign.rewrite_inventory(j(head), "inventory.json", inv, s.alg)
    elif kind == "content missing":
        paths = [p for ps in inv["manifest"].values() for p in ps]
        if not paths:
            return None
        os.remove(j(rng.choice(paths)))
    elif kind == "stray content":
        p = j(rng.choice(["v1", head]), s.cfg["content_directory"], "stray-%d" % rng.randrange(99))
        write_tree(os.path.dirname(p), {os.path.basename(p): b"x"})
    elif kind == "stray file":
        write_tree(d, {rng.choice(["stray", head + "/stray"]): b"x"})
    elif kind == "version inventory differs":
        inv["versions"][head]["message"] = "changed"
        foreign.rewrite_inventory(j(head), "inventory.json", inv, s.alg)
    elif kind == "version missing":
        shutil.rmtree(j(rng.choice(["v1", head])))
    elif kind == "root not head":
        if len(s.states) < 2:
            return None
        prev = "v%d" % (len(s.states) - 1)
        for n in os.listdir(d):
            if n.startswith("inventory.json"):
                os.remove(j(n))
        for n in os.listdir(j(prev)):
            if n.startswith("inventory.json"):
                shutil.copy(j(prev, n), j(n))
    elif kind == "empty directory":
        os.makedirs(j(head, s.cfg["content_directory"], "empty-%d" % rng.randrange(99)))
    else:
        shutil.rmtree(d)
        write_tree(d, {"f": b"x"})
    return kind


def update_call(ctx, rng, s, d, src, over):
    o = dict(s.cfg, fixity=None, digest_algorithm=s.alg)
    o.update(over)
    how = rng.choice(["content", "open", "stage", "metadata"])
    if how == "metadata":
        src = None
    if how == "open":
        return how, lambda: OBJ(path=d, **o).add_version_with_content(srcdir=src)
    if how == "stage":
        def run():
            ob = OBJ(**o)
            nv = ob.start_new_version(objdir=d, srcdir=src, digest_algorithm=o["digest_algorithm"], fixity=o["fixity"])
            return ob.write_new_version(nv)
        return how, run
    return how, lambda: OBJ(**o).add_version_with_content(objdir=d, srcdir=src)


def update_refusals(b, s, src):
    ctx, rng = b.ctx, b.rng
    d = s.dir
    for r in rng.sample(["damaged", "damaged", "damaged", "source missing", "digest", "fixity", "no such object", "lower spec", "bad add", "no object named", "bad metadata"], 5):
        if r == "damaged":
            keep = ctx.path("keep")
            shutil.copytree(d, keep)
            kind = damage(rng, d, s)
            if kind:
                how, run = update_call(ctx, rng, s, d, src, {})
                b.refuse("update of object with %s" % kind, run)
            shutil.rmtree(d)
            os.rename(keep, d)
        elif r == "source missing":
            miss = rng.choice([ctx.path("nothing"), ctx.path("no/where"), "zip://" + ctx.path("none.zip")])
            b.refuse("update: source missing", lambda: OBJ(**dict(s.cfg, fixity=None, digest_algorithm=s.alg)).add_version_with_content(objdir=d, srcdir=miss))
        elif r == "digest":
            how, run = update_call(ctx, rng, s, d, src, {"digest_algorithm": bad_alg(rng)})
            b.refuse("update: unsupported digest", run)
        elif r == "fixity":
            how, run = update_call(ctx, rng, s, d, src, {"fixity": [bad_alg(rng)] + rng.sample(gen.FIXITY, rng.randrange(2))})
            b.refuse("update: unsupported fixity", run)
        elif r == "no such object":
            write_tree(ctx.dir, {"afile": b"x"})
            os.makedirs(ctx.path("emptydir"), exist_ok=True)
            where = rng.choice([ctx.path("nothing"), ctx.path("afile"), ctx.path("emptydir"), src])
            how, run = update_call(ctx, rng, s, where, src, {})
            b.refuse("update: no object there", run)
        elif r == "bad metadata":
            ob = OBJ(**dict(s.cfg, fixity=None, digest_algorithm=s.alg))
            md = bad_meta(rng)
            b.refuse("update: bad metadata", rng.choice([lambda: ob.add_version_with_content(objdir=d, srcdir=src, metadata=md),
                                                         lambda: ob.start_new_version(objdir=d, srcdir=src, metadata=md)]))
        elif r == "no object named":
            b.refuse("update: object not given", lambda: OBJ().start_new_version(srcdir=src))
        elif r == "lower spec":
            ob = OBJ(path=d)
            inv = ctx.call("parse_inventory", ob.parse_inventory)
            low = {"1.1": ["1.0", "0.9"], "1.0": ["0.9", "0.1"]}[s.spec]
            keep = copy.deepcopy(inv.data)
            b.refuse("update: specification version lowered", lambda: lib.ocfl.NewVersion.next_version(inventory=inv, srcdir=src, spec_version=rng.choice(low)))
            ctx.check(inv.data == keep, "refused version changed the inventory")
        else:
            ob = OBJ(**dict(s.cfg, fixity=None, digest_algorithm=s.alg))
            nv = ctx.call("start_new_version", ob.start_new_version, objdir=d, srcdir=src)
            keep = copy.deepcopy(nv.inventory.data)
            exist = sorted(s.states[-1])
            bad = rng.choice([lambda: nv.add("no-such-file", "new-name-1"), lambda: nv.delete("no such path"), lambda: nv.rename("no such path", "x-y-z")]
                             + ([lambda: nv.add(exist[0], exist[0])] if exist else []))
            b.refuse("edit: impossible", bad)
            ctx.check(nv.inventory.data == keep, "refused edit changed the inventory")
    # Still works
    how, run = update_call(ctx, rng, s, d, src, {})
    ctx.call("update after refusals", run)
    bad = oracle.check_object(d)
    ctx.check(not bad, "object updated after refusals does not conform", "%s", bad[:2])


def extract_refusals(b, s):
    ctx, rng = b.ctx, b.rng
    d, out = s.dir, ctx.path("out")
    last = len(s.states)
    for r in rng.sample(["version", "version", "path", "path", "destination", "file there", "parent", "inventory", "no object"], 5):
        v = rng.choice(["v%d" % (i + 1) for i in range(last)] + ["head"])
        k = last - 1 if v == "head" else int(v[1:]) - 1
        some = rng.choice(sorted(s.states[k])) if s.states[k] else None
        if r == "version":
            bad = rng.choice(["v0", "v%d" % (last + 1), "v01", "", "1", "V1", "HEAD", "latest", "v1/", " v1", "v", "v-1", "v1.0", None, 1, "v1\n", "../obj/v1", "v" + "9" * 30])
            if rng.random() < 0.5 or not some:
                b.refuse("extract: unknown version", lambda: OBJ().extract(d, bad, out))
            else:
                b.refuse("extract_file: unknown version", lambda: OBJ().extract_file(d, bad, out, some))
        elif r == "path":
            other = [p for st in s.states for p in st if p not in s.states[k]]
            bad = rng.choice(["no such path", "", "/", ".", "..", "v1/content/a"] + ([some + "/x", "/" + some, some + "/", some.upper() + "x", os.path.dirname(some) or "zz"] if some else []) + other[:2])
            if bad in s.states[k]:
                continue
            if rng.random() < 0.5:
                os.makedirs(out, exist_ok=True)
            b.refuse("extract_file: unknown logical path", lambda: OBJ().extract_file(d, v, out, bad))
            shutil.rmtree(out, ignore_errors=True)
        elif r == "destination":
            kind = rng.choice(["file in it", "hidden file", "directory in it", "is a file"])
            if kind == "is a file":
                write_tree(ctx.dir, {"out": b"x"})
            elif kind == "directory in it":
                os.makedirs(out + "/sub")
            else:
                write_tree(out, {".h" if kind == "hidden file" else "f": b"keep"})
            b.refuse("extract: destination in use (%s)" % kind, lambda: OBJ().extract(d, v, out))
            if os.path.isdir(out):
                shutil.rmtree(out)
            else:
                os.remove(out)
        elif r == "file there" and some:
            write_tree(out, {os.path.basename(some): b"keep"})
            b.refuse("extract_file: file exists", lambda: OBJ().extract_file(d, v, out, some))
            shutil.rmtree(out)
        elif r == "parent":
            far = ctx.path("no-parent/sub/out")
            if rng.random() < 0.5 or not some:
                b.refuse("extract: parent missing", lambda: OBJ().extract(d, v, far))
            else:
                b.refuse("extract_file: parent missing", lambda: OBJ().extract_file(d, v, far, some))
        elif r == "inventory":
            keep = ctx.path("keep")
            shutil.copytree(d, keep)
            kind = None
            while kind not in ("inventory missing", "inventory not JSON", "inventory bad", "not an object"):
                shutil.rmtree(d)
                shutil.copytree(keep, d)
                kind = damage(rng, d, s)
            b.refuse("extract: object with " + kind, lambda: OBJ().extract(d, v, out))
            if some:
                b.refuse("extract_file: object with " + kind, lambda: OBJ().extract_file(d, v, out, some))
            shutil.rmtree(d)
            os.rename(keep, d)
        elif r == "no object":
            b.refuse("extract: no object there", lambda: OBJ().extract(ctx.path("nothing"), v, out))
    ctx.call("extract after refusals", OBJ().extract, d, "v%d" % last, out)
    ctx.check(read_tree(out) == s.states[-1], "extraction after refusals differs")


def case(ctx):
    rng = ctx.rng
    s = Session(ctx, odd=0.15, max_v=3)
    for st in s.steps():
        ctx.call(st.kind, st.run)
    os.chdir(ctx.dir)
    b = Bench(ctx)
    src = ctx.path("goodsrc")
    tree = gen.tree(rng, s.pool, n=rng.choice([0, 1, 2, 3]), odd=0.1)
    write_tree(src, tree)
    write_tree(ctx.path("goodvsrc/v1"), gen.tree(rng, s.pool, n=rng.choice([0, 1, 2]), odd=0.1))
    write_tree(ctx.path("goodvsrc/v2"), tree)
    parts = rng.sample(["create", "update", "extract"], 2)
    if "create" in parts:
        create_refusals(b, src, ctx.path("goodvsrc"))
    if "extract" in parts:
        extract_refusals(b, s)
    if "update" in parts:
        update_refusals(b, s, src)
    ctx.note("config", s.cfg["digest_algorithm"], s.spec, len(s.states))
    for r in b.done:
        ctx.sig.append(("reason", r))
