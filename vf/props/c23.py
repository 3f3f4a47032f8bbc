"""C23: extraction and creation never write outside their destination."""
import copy
import json
import os
import shutil
import zipfile

from vf import cli, foreign, gen, lib, oracle
from vf.monitors import FS, read_tree, snapshot, snap_diff, write_tree
from vf.props import c13

ID = "C23"
LEVEL = "exploration"
QUICK, THOROUGH = 6000, 200000
MIN_DISTINCT = 1000
RULE = ("Objects made hostile in one place (content path, logical path, version name, head, content directory, digest algorithm, fixity path, earlier inventory) but consistent otherwise: sidecars are right, and the file a path "
        "leads to exists outside the object with the right bytes; hostile zip sources; hostile options and arguments; storage roots with hostile layout declarations, parameters and identifiers. Validation, extraction, updates, "
        "listing and additions are run under the audit-hook monitor: every write must be inside the destination and every file read inside the object, source or root given, and hostile inventories must be refused. "
        "Distinct by (place, hostile value, operation).")
ASSUMPTIONS = ["no symbolic links", "no names beginning dir:: (fsspec strips it)"]
ESCAPES_OK = True     # judged here, per operation
OBJ = lib.ocfl.Object
HASHED = "0003-hash-and-id-n-tuple-storage-layout"


def inside(p, tops):
    return any(p == t or p.startswith(t + "/") for t in tops)


def guard(ctx, what, fn, writes=(), reads=(), refuse=None):
    """Run fn under the monitor. refuse: True must raise, False must succeed, None either. Returns (raised, result)."""
    writes = [os.path.realpath(w) for w in writes]
    reads = [os.path.realpath(r) for r in reads] + writes
    before = snapshot(ctx.dir)
    FS.escapes = []
    FS.start(reads=True)
    err = res = None
    try:
        res = fn()
    except Exception as e:  # pylint: disable=broad-except
        err = e
    finally:
        ev = FS.stop()
    ctx.stats["calls"] += 1
    esc, FS.escapes = FS.escapes, []
    ctx.check(not esc, "write outside blocked: " + what, "%s", esc[:2])
    base = os.path.realpath(ctx.dir)
    for e in ev:
        for k in ("path", "path2"):
            p = e.get(k)
            if p is None:
                continue
            if e["op"] == "read":
                ctx.check(inside(p, reads) or not inside(p, [base]), "file outside read: " + what, "%s (%s)", p, ctx.sig[-1:])
            elif e["op"] != "list":
                ctx.check(inside(p, writes), "file outside written: " + what, "%s %s (%s)", e["op"], p, ctx.sig[-1:])
            ctx.stats["checks"] += 1
    after = snapshot(ctx.dir)
    for p in set(before) | set(after):
        if before.get(p) != after.get(p):
            ctx.check(inside(os.path.join(base, p), writes), "file outside changed: " + what, "%s: %s -> %s", p, before.get(p), after.get(p))
    if refuse is True:
        ctx.check(err is not None, "not refused: " + what, "%s returned %r", ctx.sig[-1:], res)
    if refuse is False and err is not None:
        ctx.fail("raised: " + what, "%s: %s" % (type(err).__name__, err))
    return err is not None, res


def bad_relative(rng, secret_abs, depth):
    """Paths with segments no inventory may have; many lead to the secret (depth: how deep the base is below its directory)."""
    name = os.path.basename(secret_abs)
    up = "../" * depth
    return rng.choice([up + name, up + name, secret_abs, "/" + secret_abs, "x/../" + up + name, "./" + up + name, up + "./" + name, "../" * 12 + secret_abs.lstrip("/"),
                       "x//" + up + name, "x/./y", "./x", "x/", "x//y", "", "..", ".", "/", "x/..", "../x", "/x"])


def hostile_object(ctx, d, secret):
    """Write an object with one hostile place at d. Returns (kind, value, o, inv, everything_refuses)."""
    rng = ctx.rng
    o = foreign.make(rng, ctx.tier, nv=rng.choice([1, 2, 3]), features=rng.random() < 0.4, max_files=4, simple_paths=True, pads=[2, 3], warn=False)
    foreign.write(o, d)
    inv = copy.deepcopy(o.invs[-1])
    head = inv["head"]
    if not inv["manifest"]:
        return None
    kind = rng.choice(["content", "content", "content", "logical", "logical", "logical", "version name", "head", "content directory", "digest algorithm", "fixity", "earlier inventory"])
    dg = rng.choice(sorted(inv["manifest"]))
    paths = inv["manifest"][dg]
    cp = rng.choice(paths)
    with open(os.path.join(d, cp), "rb") as fh:
        data = fh.read()
    write_tree(os.path.dirname(secret), {os.path.basename(secret): data})
    cdir = o.content_dir
    alg = o.algs[-1]

    def bad_content():
        r = rng.random()
        v = rng.choice(o.vdirs)
        if r < 0.35:
            return "%s/%s/%s%s" % (v, cdir, "../" * 3, os.path.basename(secret))
        if r < 0.5:
            return "%s/../../%s" % (v, os.path.basename(secret))
        if r < 0.6:
            return "%s/%s/x/../../../../%s" % (v, cdir, os.path.basename(secret))
        if r < 0.7:
            return rng.choice([cp.replace("/", "//", 1), cp.replace("/", "/./", 1), "./" + cp, "/" + cp, cp + "/", cp + "/.", cp.replace("/", "/x/../", 1), d + "/" + cp])
        return bad_relative(rng, secret, 1)
    everything = True
    value = None
    if kind == "content":
        value = bad_content()
        how = rng.random()
        if how < 0.6:
            inv["manifest"][dg] = [value if p == cp else p for p in paths]
            if rng.random() < 0.6:
                os.remove(os.path.join(d, cp))
        else:
            inv["manifest"][dg] = [value] + paths
    elif kind == "logical":
        value = bad_relative(rng, os.path.join(os.path.dirname(secret), "evil"), rng.choice([1, 1, 2]))
        v = rng.choice([head, rng.choice(sorted(inv["versions"]))])
        st = inv["versions"][v]["state"]
        k = next((x for x in st if x.lower() == dg.lower()), dg)
        st.setdefault(k, [])
        if st[k] and rng.random() < 0.5:
            st[k][rng.randrange(len(st[k]))] = value
        else:
            st[k].append(value)
    elif kind == "version name":
        value = rng.choice(["../v1", "v1/../../evil", "/v1", "..", "v1/..", "v1/x", ".", "v1/../v1", "../" + os.path.basename(secret), "v/1", "v2/../../obj/v1"])
        if rng.random() < 0.5:
            inv["versions"][value] = inv["versions"].pop(head)
            if rng.random() < 0.7:
                inv["head"] = value
        else:
            inv["versions"][value] = copy.deepcopy(inv["versions"][head])
            if rng.random() < 0.5:
                inv["head"] = value
    elif kind == "head":
        value = rng.choice(["../" + head, "/" + head, head + "/../../evil", "..", "./" + head, head + "/.", "../obj/" + head])
        inv["head"] = value
    elif kind == "content directory":
        value = rng.choice(["..", ".", "a/b", "/", os.path.dirname(secret), "../..", "a/..", "../" + cdir, "./" + cdir, cdir + "/.", cdir + "/", "", "/" + cdir])
        inv["contentDirectory"] = value
        if rng.random() < 0.5:
            inv["manifest"] = {x: [p.split("/", 1)[0] + "/" + value + "/" + p.split("/", 2)[2] for p in ps] for x, ps in inv["manifest"].items()}
    elif kind == "digest algorithm":
        value = rng.choice(["../" + os.path.basename(secret), "sha512/../../" + os.path.basename(secret), "/" + secret, "../sha512", "./sha512", "/sha512", "../../x/sha512", "sha512/"])
        inv["digestAlgorithm"] = value
    elif kind == "fixity":
        value = bad_content()
        fa = rng.choice(["md5", "sha1", "sha256"])
        inv["fixity"] = {fa: {oracle.digest(data, fa): [value] + ([cp] if rng.random() < 0.5 else [])}}
    else:
        if len(o.vdirs) < 2:
            return None
        old = copy.deepcopy(o.invs[0])
        if not old["manifest"] or 0 in o.missing_inv:
            return None
        value = bad_content()
        k = rng.choice(sorted(old["manifest"]))
        if rng.random() < 0.5:
            old["manifest"][k] = [value] + (old["manifest"][k] if rng.random() < 0.5 else [])
        else:
            value = rng.choice(["../evil", "/evil", "a/../../evil"])
            old["versions"][o.vdirs[0]]["state"].setdefault(k, []).append(value)
        foreign.rewrite_inventory(os.path.join(d, o.vdirs[0]), "inventory.json", old, o.algs[0])
        return kind, value, o, inv, False
    foreign.rewrite_inventory(d, "inventory.json", inv, alg)
    if len(o.vdirs) - 1 not in o.missing_inv:
        foreign.rewrite_inventory(os.path.join(d, o.vdirs[-1]), "inventory.json", inv, alg)
    return kind, value, o, inv, everything


def hostile_inventories(ctx):
    rng = ctx.rng
    top = ctx.path("a")
    d, secret = top + "/obj", top + "/secret"
    os.makedirs(top)
    made = hostile_object(ctx, d, secret)
    if made is None:
        return
    kind, value, o, inv, every = made
    rep = (kind, str(value).replace(top, "TOP"))
    ctx.note(*rep)
    ctx.count("hostile " + kind)
    write_tree(top, {"src/f": b"new"})
    reads = [d]
    vs = list(inv["versions"]) + ["head"]
    if isinstance(inv.get("head"), str):
        vs.append(inv["head"])
    for op in rng.sample(["validate", "validate", "extract", "extract", "extract", "file", "update", "stage", "tree", "cli extract", "cli validate", "add", "metadata", "validate inventory"], 6):
        keep = top + "/keep"
        ctx.log("%s on %s" % (op, rep))
        if op == "validate":
            kw = rng.choice([{}, {"check_digests": False}, {"log_warnings": False, "log_errors": False}])
            _, res = guard(ctx, "validate", lambda: OBJ().validate(objdir=d, **kw), reads=reads, refuse=False)
            ctx.check(res[0] is False, "hostile object valid", "%s", rep)
        elif op == "validate inventory":
            f = d + "/inventory.json"
            _, res = guard(ctx, "validate_inventory", lambda: OBJ().validate_inventory(f), reads=reads, refuse=False)
            ctx.check(res[0] is False or not every, "hostile inventory valid", "%s", rep)
        elif op == "extract":
            v = rng.choice(vs)
            dst = top + "/dst"
            guard(ctx, "extract", lambda: OBJ().extract(objdir=d, version=v, dstdir=dst), writes=[dst], reads=reads, refuse=every or None)
            shutil.rmtree(dst, ignore_errors=True)
        elif op == "file":
            v = rng.choice(vs)
            st = inv["versions"].get(v, inv["versions"].get(inv["head"], {})).get("state", {})
            lps = [p for ps in st.values() for p in ps] + ["../secret", str(value)]
            lp = rng.choice(lps)
            dst = top + "/dst"
            guard(ctx, "extract_file", lambda: OBJ().extract_file(objdir=d, version=v, dstdir=dst, logical_path=lp), writes=[dst], reads=reads, refuse=every or None)
            shutil.rmtree(dst, ignore_errors=True)
        elif op in ("update", "stage", "metadata"):
            shutil.copytree(d, keep)

            def run():
                ob = OBJ(digest_algorithm=o.algs[-1])
                if op == "update":
                    return ob.add_version_with_content(objdir=d, srcdir=top + "/src")
                if op == "metadata":
                    return ob.add_version_with_content(objdir=d, metadata=lib.VersionMetadata(message="x"))
                nv = ob.start_new_version(objdir=d, srcdir=top + "/src", digest_algorithm=rng.choice(["sha256", "sha512"]), fixity=rng.choice([None, ["md5"]]))
                nv.add("f", "f-new")
                return ob.write_new_version(nv)
            guard(ctx, op, run, writes=[d], reads=reads + [top + "/src"], refuse=True)
            shutil.rmtree(d)
            os.rename(keep, d)
        elif op == "tree":
            guard(ctx, "tree", lambda: OBJ().tree(objdir=d), reads=reads)
        elif op == "cli extract":
            dst = top + "/dst"
            _, r = guard(ctx, "ocfl-object.py extract", lambda: cli.run("ocfl-object.py", ["extract", "--objdir", d, "--dstdir", dst]), writes=[dst], reads=reads, refuse=False)
            ctx.check(r.status != 0 or not every, "not refused: ocfl-object.py extract", "%s %s", rep, r)
            shutil.rmtree(dst, ignore_errors=True)
        elif op == "cli validate":
            _, r = guard(ctx, "ocfl-validate.py", lambda: cli.run("ocfl-validate.py", [d]), reads=reads, refuse=False)
            ctx.check(r.status != 0, "hostile object valid: ocfl-validate.py", "%s %s", rep, r)
        else:
            root = top + "/root"
            lib.ocfl.StorageRoot(root=root, layout_name=HASHED).initialize()
            guard(ctx, "StorageRoot.add", lambda: lib.ocfl.StorageRoot(root=root).add(object_path=d), writes=[root], reads=reads)
            shutil.rmtree(root)


def hostile_zip(ctx):
    rng = ctx.rng
    top = ctx.path("z")
    os.makedirs(top)
    write_tree(top, {"secret": b"s"})
    names = rng.sample(["../evil", "../../evil", top + "/evil", "a/../../evil", "a/../../../evil", "a//b", "..", "a/..", "./a", "..\\evil", "a/./b", "../secret", "../obj2/evil", "x/..", "/evil", "a/../b"], rng.choice([1, 1, 2]))
    kind = rng.choice(["create", "update", "build", "add object"])
    pre = {"build": "v1/", "add object": "v1/content/"}.get(kind, "")
    obj = top + "/obj"
    zn = top + "/src.zip"
    with zipfile.ZipFile(zn, "w") as z:
        if kind == "add object":
            o = foreign.make(rng, ctx.tier, nv=1, features=False, plain=True, max_files=2)
            for n, c in o.files.items():
                z.writestr(n, c)
            pre = rng.choice(["", pre])
        else:
            z.writestr(pre + "good.txt", b"good")
        for n in names:
            z.writestr(pre + n, b"evil " + n.encode())
    ctx.note("zip", kind, tuple(n.replace(top, "TOP") for n in names))
    ctx.count("hostile zip " + kind)
    src = "zip://" + zn
    if kind == "create":
        raised, _ = guard(ctx, "create from zip", lambda: OBJ(identifier="x", **gen.config(rng)).create(srcdir=src, objdir=obj), writes=[obj], reads=[zn])
    elif kind == "build":
        raised, _ = guard(ctx, "build from zip", lambda: OBJ(identifier="x", **gen.config(rng)).build(srcdir=src, objdir=obj), writes=[obj], reads=[zn])
    elif kind == "update":
        OBJ(identifier="x").create(srcdir=write_src(top), objdir=obj)
        raised, _ = guard(ctx, "update from zip", lambda: OBJ().add_version_with_content(objdir=obj, srcdir=src), writes=[obj], reads=[zn])
    else:
        root = top + "/root"
        lib.ocfl.StorageRoot(root=root, layout_name=HASHED).initialize()
        raised, _ = guard(ctx, "add object from zip", lambda: lib.ocfl.StorageRoot(root=root).add(object_path=src), writes=[root], reads=[zn])
        return
    if not raised:
        bad = oracle.check_object(obj)
        ctx.check(not bad, "object from hostile zip does not conform", "%s: %s", names, bad[:2])
        dst = top + "/dst"
        guard(ctx, "extract of object from zip", lambda: OBJ().extract(objdir=obj, version="head", dstdir=dst), writes=[dst], reads=[obj], refuse=False)
        ctx.count("zip used")


def write_src(top):
    write_tree(top, {"s0/f": b"first"})
    return top + "/s0"


def hostile_arguments(ctx):
    rng = ctx.rng
    top = ctx.path("b")
    os.makedirs(top)
    write_tree(top, {"secret": b"s", "src/f": b"f", "src/d/g": b"g", "outside/v1/f": b"x"})
    d = top + "/obj"
    src = top + "/src"
    made = rng.random() < 0.8
    if made:
        OBJ(identifier="x", **gen.config(rng)).create(srcdir=src, objdir=d)
    bad = bad_relative(rng, top + "/secret", rng.choice([1, 2]))
    alg = OBJ(path=d).parse_inventory().digest_algorithm if made else None
    for op in rng.sample(["content_directory", "digest", "fixity", "spec", "identifier", "add logical", "add content path", "rename", "extract version", "extract_file path", "add source"], 5):
        ctx.note(op, bad.replace(top, "TOP"))
        ctx.count("hostile argument " + op)
        new = top + "/new"
        if op == "content_directory":
            cd = rng.choice(["..", ".", "../x", "a/b", "/x", top + "/evil", "", "a/..", "x/", "./x"])
            guard(ctx, "create with content_directory", lambda: OBJ(identifier="x", content_directory=cd).create(srcdir=src, objdir=new), writes=[new], reads=[src], refuse=True)
        elif op == "digest":
            a = rng.choice(["../x", "sha512/../../x", "/x", top + "/evil", "/../../sha512"])
            guard(ctx, "create with digest algorithm", lambda: OBJ(identifier="x", digest_algorithm=a).create(srcdir=src, objdir=new), writes=[new], reads=[src], refuse=True)
        elif op == "fixity":
            guard(ctx, "create with fixity", lambda: OBJ(identifier="x", fixity=[bad]).create(srcdir=src, objdir=new), writes=[new], reads=[src], refuse=True)
        elif op == "spec":
            sv = rng.choice(["../x", "1.1/../../evil", "/../../1.1", "1.0/../../../evil"])
            guard(ctx, "create with spec_version", lambda: OBJ(identifier="x", spec_version=sv).create(srcdir=src, objdir=new), writes=[new], reads=[src])
        elif op == "identifier":
            i = rng.choice([bad or "x", "../../evil", "/etc/passwd", "..", top + "/evil"])
            guard(ctx, "create with identifier", lambda: OBJ(identifier=i).create(srcdir=src, objdir=new), writes=[new], reads=[src], refuse=False)
        elif made:
            nvo = OBJ(digest_algorithm=alg)
            if op in ("add logical", "add content path", "rename", "add source"):
                nv = nvo.start_new_version(objdir=d, srcdir=src, carry_content_forward=True, digest_algorithm=alg)
                keep = copy.deepcopy(nv.inventory.data)
                if op == "add logical":
                    guard(ctx, "NewVersion.add", lambda: nv.add("f", bad), reads=[src, d], refuse=True)
                elif op == "add content path":
                    c = rng.choice([bad, "v2/content/../../../evil", "v2/../evil", "../evil", "/evil", "v2/content//x", "v2/content/./x"])
                    guard(ctx, "NewVersion.add content path", lambda: nv.add("f", "new-name", content_path=c), reads=[src, d], refuse=True if c else None)
                elif op == "rename":
                    guard(ctx, "NewVersion.rename", lambda: nv.rename("f", bad), reads=[src, d], refuse=True)
                else:
                    raised, _ = guard(ctx, "NewVersion.add missing source", lambda: nv.add("no/such", "new-name"), reads=[src, d], refuse=True)
                if op != "add content path":
                    ctx.check(nv.inventory.data == keep, "refused edit changed the inventory", "%s", op)
                guard(ctx, "write_new_version", lambda: nvo.write_new_version(nv), writes=[d], reads=[src, d])
                shutil.rmtree(d)
                OBJ(identifier="x", digest_algorithm=alg).create(srcdir=src, objdir=d)
            elif op == "extract version":
                v = rng.choice(["../outside/v1", "..", ".", "/v1", "v1/..", "../v1", bad])
                guard(ctx, "extract of version", lambda: OBJ().extract(objdir=d, version=v, dstdir=top + "/dst"), writes=[top + "/dst"], reads=[d], refuse=True)
            else:
                guard(ctx, "extract_file of path", lambda: OBJ().extract_file(objdir=d, version="head", logical_path=bad, dstdir=top + "/dst"), writes=[top + "/dst"], reads=[d], refuse=True)
        shutil.rmtree(new, ignore_errors=True)
        shutil.rmtree(top + "/dst", ignore_errors=True)


HOSTILE_IDS = ["..", ".", "../evil", "../../evil", "/etc/evil", "a/../../evil", "a/../../../evil", "extensions", "extensions/x", "0=ocfl_1.0", "ocfl_layout.json", "", "a/./b", "a//b", "/", "//", "./x", "../root/x", "x/..",
               "urn:..", "urn:../evil", "info:/../../evil", "edu/../../../evil", "https://x/../../../evil", "\0", "..\\evil", "%2e%2e/evil", "~", "~/evil", "~root", "zip://x", "memory://evil", "file:///evil", ":..", "a:/..", "a:..", "x/../.."]


def hostile_roots(ctx):
    rng = ctx.rng
    top = ctx.path("r")
    os.makedirs(top)
    root = top + "/root"
    write_tree(top, {"secret/config.json": b'{"extensionName": "../../secret", "digestAlgorithm": "md5"}', "secret/0=ocfl_1.1": b"ocfl_1.1\n", "config.json": b"{}"})
    r = rng.random()
    if r < 0.35:
        ext = rng.choice(["../../secret", "../secret", "..", ".", "/", top + "/secret", "../../../etc", HASHED + "/../../../secret", "0002-flat-direct-storage-layout/..", "./0002-flat-direct-storage-layout", ""])
        write_tree(root, {"0=ocfl_1.1": b"ocfl_1.1\n", "ocfl_layout.json": json.dumps({"extension": ext, "description": "x"}).encode()})
        ctx.note("layout extension", ext.replace(top, "TOP"))
        ctx.count("hostile layout extension")
        sr = lambda: lib.ocfl.StorageRoot(root=root)  # noqa: E731
        _, ok = guard(ctx, "StorageRoot.validate", lambda: sr().validate(), reads=[root], refuse=False)
        ctx.check(ok is False, "root with hostile layout is valid", "%r", ext)
        guard(ctx, "object_path", lambda: sr().object_path("x"), reads=[root], refuse=True)
        guard(ctx, "list_objects", lambda: list(sr().list_objects()), reads=[root])
        write_tree(top, {"src/f": b"f"})
        OBJ(identifier="x").create(srcdir=top + "/src", objdir=top + "/o")
        guard(ctx, "StorageRoot.add", lambda: sr().add(object_path=top + "/o"), writes=[root], reads=[top + "/o"], refuse=True)
        ini = top + "/made"
        guard(ctx, "initialize", lambda: lib.ocfl.StorageRoot(root=ini, layout_name=ext or "..").initialize(), writes=[ini], refuse=True)
        ctx.check(not os.path.exists(ini), "refused initialize left a root", "%r", ext)
        return
    layout = rng.choice(sorted(c13.CANON.values()))
    ids = rng.sample(HOSTILE_IDS, 4)
    params = None
    if rng.random() < 0.5:
        if "0003" in layout:
            params = {"digestAlgorithm": rng.choice(["sha256", "md5", "../evil"]), "tupleSize": rng.choice([0, 1, 2, 3]), "numberOfTuples": rng.choice([0, 1, 2, 3])}
        elif "tuple-tree" in layout:
            params = {"tupleSize": rng.choice([2, 3, 6])}
        elif "uuid" in layout:
            params = {"prefix": rng.choice(["urn:uuid:", "", "../", "/", "a/../"])}
        if params is not None and rng.random() < 0.2:
            params["extensionName"] = rng.choice(["../../evil", "/evil", layout])
    raised, _ = guard(ctx, "initialize", lambda: lib.ocfl.StorageRoot(root=root, layout_name=layout).initialize(layout_params=json.dumps(params) if params else None), writes=[root])
    if raised:
        shutil.rmtree(root, ignore_errors=True)
        params = None
        lib.ocfl.StorageRoot(root=root, layout_name=layout).initialize()
    real = os.path.realpath(root)
    for k, i in enumerate(ids):
        if "\0" in i or i == "":
            continue
        ctx.note("identifier", layout[:4], i, json.dumps(params, sort_keys=True))
        ctx.count("hostile identifier")
        raised, p = guard(ctx, "object_path", lambda: lib.ocfl.StorageRoot(root=root).object_path(i), reads=[root])
        if not raised:
            full = os.path.normpath(os.path.join(real, p))
            ctx.check(full.startswith(real + "/") and not p.startswith("/") and all(s not in ("", ".", "..") for s in p.split("/")), "object path outside the root", "%r gave %r", i, p)
        write_tree(top, {"src/f": b"f%d" % k})
        d = top + "/o%d" % k
        OBJ(identifier=i).create(srcdir=top + "/src", objdir=d)
        before = snapshot(root)
        r2, res = guard(ctx, "StorageRoot.add", lambda: lib.ocfl.StorageRoot(root=root).add(object_path=d), writes=[root], reads=[d])
        ctx.check(not (raised and not r2), "object added where no path exists", "%r at %r", i, res)
        if not r2:
            p2 = res[1]
            ctx.check(read_tree(os.path.join(root, p2)) == read_tree(d), "object added differs", "%r", i)
            after = snapshot(root)
            ctx.check(all(after.get(x) == v for x, v in before.items()), "adding changed other files of the root", "%r: %s", i, snap_diff(before, {x: v for x, v in after.items() if x in before}))
            _, ok = guard(ctx, "StorageRoot.validate", lambda: lib.ocfl.StorageRoot(root=root).validate(), reads=[root], refuse=False)
            ctx.check(ok, "root not valid after adding", "%r with %s", i, layout)
            ctx.count("hostile identifier stored")
        else:
            ctx.check(snapshot(root) == before, "refused addition changed the root", "%r", i)


def case(ctx):
    part = ctx.rng.choice([hostile_inventories] * 6 + [hostile_zip, hostile_arguments, hostile_roots, hostile_roots])
    part(ctx)
    if not ctx.sig:
        ctx.count("nothing made")
