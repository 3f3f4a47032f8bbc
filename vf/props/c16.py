"""C16: inventory access tells the truth about the inventory."""
import copy
import json
import os
import zipfile

from vf import foreign, gen, lib, oracle
from vf.common import HarnessError

ID = "C16"
LEVEL = "exploration"
QUICK, THOROUGH = 12000, 600000
MIN_DISTINCT = 500
RULE = ("Two thirds of the cases: one inventory of an independently written object (padded names, mixed-case digests, custom content directories, several content paths per digest, shuffled keys, fixity) read from a dictionary, "
        "a file, a file system object or an object; every accessor of Inventory, Version and VersionMetadata is compared with a value computed from the JSON and from the ground truth of the generator, including lookups that must miss; "
        "then copies are mutated through every setter and method and the original compared, and the inventory is written, read back and normalized. One third: an inventory built with add_version, add_file and delete_logical_path "
        "following a model, refused calls included. Distinct by features and shape.")


def num(v):
    return int(v[1:])


def accessors(ctx, i, raw, o, k, how):
    """Compare everything readable with the raw JSON and the ground truth."""
    rng = ctx.rng
    eq = lambda what, got, want: ctx.check(got == want and type(got) is type(want), "%s wrong" % what, "%s: %.300r expected %.300r", how, got, want)  # noqa: E731
    eq("spec_version", i.spec_version, o.specs[k])
    eq("digest_algorithm", i.digest_algorithm, o.algs[k])
    eq("id", i.id, o.id)
    eq("head", i.head, o.vdirs[k])
    eq("content_directory", i.content_directory, raw.get("contentDirectory"))
    eq("content_directory_to_use", i.content_directory_to_use, o.content_dir)
    eq("manifest", i.manifest, raw["manifest"])
    eq("fixity", i.fixity, raw.get("fixity", {}))
    inv_map = {p: d for d, ps in raw["manifest"].items() for p in ps}
    eq("content", i.content, inv_map)
    eq("content_paths", sorted(i.content_paths), sorted(o.manifest_paths[k]))
    eq("versions_block", i.versions_block, raw["versions"])
    eq("version_directories", i.version_directories, o.vdirs[:k + 1])
    eq("version_numbers", i.version_numbers, list(range(1, k + 2)))
    vs = list(i.versions())
    eq("versions()", [(v.vdir, v.number) for v in vs], [(v, n + 1) for n, v in enumerate(o.vdirs[:k + 1])])
    eq("current_version", i.current_version.vdir, o.vdirs[k])
    for p in i.content_paths:
        dg = i.digest_for_content_path(p)
        eq("digest_for_content_path", dg, inv_map[p])
        ctx.check(dg.lower() == oracle.digest(o.content[p], o.algs[k]), "content path has digest of other bytes", "%s", p)
        eq("content_paths_for_digest", i.content_paths_for_digest(dg), raw["manifest"][dg])
        ctx.check(i.content_path_for_digest(dg) in raw["manifest"][dg], "content path for digest is of another digest", "%s", p)
    used = set(inv_map)
    for miss in ([gen.new_path(rng, used), "", "v1", "/" + (sorted(used) or ["x"])[0], (sorted(used) or ["x"])[0] + "/"]):
        if miss in used:
            continue
        eq("digest_for_content_path of unknown path", i.digest_for_content_path(miss), None)
    fake = "0" * oracle.HEXLEN[o.algs[k]]
    eq("content_path_for_digest of unknown digest", i.content_path_for_digest(fake), None)
    eq("content_paths_for_digest of unknown digest", i.content_paths_for_digest(fake), [])
    everything = set()
    for n, vdir in enumerate(o.vdirs[:k + 1]):
        v = i.version(vdir) if rng.random() < 0.5 else vs[n]
        b = raw["versions"][vdir]
        eq("version created", v.created, o.metas[n]["created"])
        eq("version message", v.message, o.metas[n]["message"])
        eq("version user_name", v.user_name, o.metas[n]["name"])
        eq("version user_address", v.user_address, o.metas[n]["address"] if o.metas[n]["name"] is not None else None)
        eq("version user", v.user, b.get("user", {}))
        eq("version state", v.state, b["state"])
        eq("versiondata", i.versiondata(vdir), b)
        eq("logical_paths", sorted(v.logical_paths), sorted(o.states[n]))
        everything |= set(o.states[n])
        for lp, data in o.states[n].items():
            dg = v.digest_for_logical_path(lp)
            ctx.check(isinstance(dg, str) and dg.lower() == oracle.digest(data, o.algs[k]), "digest_for_logical_path wrong", "%s %s in %s: %s", how, lp, vdir, dg)
            cp = v.content_path_for_logical_path(lp)
            ctx.check(cp in inv_map, "content_path_for_logical_path not in manifest", "%s %s in %s: %s", how, lp, vdir, cp)
            ctx.check(o.content[cp] == data, "logical path resolves to other content", "%s %s in %s: %s", how, lp, vdir, cp)
            ctx.count("logical path resolved")
        for miss in [gen.new_path(rng, o.states[n]), "", (sorted(everything) or ["x"])[0] + "/", os.path.dirname((sorted(everything) or ["x"])[0])] + [x for x in sorted(everything)[:4]]:
            if miss in o.states[n]:
                continue
            eq("digest_for_logical_path of unknown path", v.digest_for_logical_path(miss), None)
            eq("content_path_for_logical_path of unknown path", v.content_path_for_logical_path(miss), None)
        for src in (i, raw):
            m = lib.VersionMetadata(inventory=src, version=vdir)
            eq("VersionMetadata", (m.id, m.version, m.created, m.message, m.name, m.address), (o.id, vdir, v.created, v.message, v.user_name, v.user_address))
            want = {x: b[x] for x in b if x != "state"}
            eq("VersionMetadata.as_dict", m.as_dict(), want)
    m = lib.VersionMetadata(inventory=i)
    eq("VersionMetadata of head", (m.version, m.created), (o.vdirs[k], o.metas[k]["created"]))
    eq("versiondata of unknown version", i.versiondata("v%d" % (k + 40)), {})
    for lp in sorted(everything) + [gen.new_path(rng, everything)]:
        last = max((n for n in range(k + 1) if lp in o.states[n]), default=None)
        got = i.find_logical_path(lp)
        if last is None:
            eq("find_logical_path of unknown path", got, (None, None))
            continue
        ctx.check(got[0] == o.vdirs[last] and o.content.get(got[1]) == o.states[last][lp], "find_logical_path wrong", "%s %s: %s, last in %s", how, lp, got, o.vdirs[last])


MUTATIONS = ["id", "head", "alg", "cd", "spec", "manifest item", "manifest list", "fixity", "add_version", "add_file", "delete", "created", "message", "user", "state", "normalize", "versions", "manifest", "fixity data", "remove fixity"]


def mutate(ctx, i, alg):
    """Change the inventory in some way, using its API."""
    rng = ctx.rng
    what = rng.choice(MUTATIONS)
    v = i.version(rng.choice(i.version_directories))
    fake = "%0*x" % (oracle.HEXLEN[alg], rng.randrange(16 ** 30))
    if what == "id":
        i.id = "changed"
    elif what == "head":
        i.head = "v77"
    elif what == "alg":
        i.digest_algorithm = "md5"
    elif what == "cd":
        i.content_directory = "changed"
    elif what == "spec":
        i.spec_version = "9.9"
    elif what == "manifest item":
        i.manifest[fake] = ["v1/content/zz"]
    elif what == "manifest list" and i.manifest:
        i.manifest[rng.choice(sorted(i.manifest))].append("v1/content/more")
    elif what == "fixity":
        i.add_fixity_type("md5", map={fake: ["x"]})
    elif what == "fixity data" and i.fixity:
        i.add_fixity_data(rng.choice(sorted(i.fixity)), fake, "v1/content/zz")
    elif what == "remove fixity":
        i.remove_fixity_data(set(i.content_paths))
    elif what == "add_version":
        i.add_version("v88", metadata={"created": "x"}, state={fake: ["y"]})
    elif what == "add_file":
        v.add_file(digest=rng.choice(sorted(i.manifest) or [fake]), logical_path="a new path %d" % rng.randrange(1000000), dedupe=rng.random() < 0.5)
    elif what == "delete" and v.logical_paths:
        v.delete_logical_path(rng.choice(v.logical_paths))
    elif what == "created":
        v.created = "changed"
    elif what == "message":
        v.message = "changed"
    elif what == "user":
        v.user_name = "changed"
        v.user_address = "changed"
    elif what == "state" and v.state:
        v.state[rng.choice(sorted(v.state))].append("more")
    elif what == "normalize":
        i.normalize_digests(alg)
    elif what == "versions":
        i.versions_block[v.vdir]["x"] = []
    elif what == "manifest":
        i.manifest = {}
    return what


def read_case(ctx):
    rng = ctx.rng
    o = foreign.make(rng, ctx.tier, spec_mix=True)
    k = rng.randrange(len(o.vdirs)) if rng.random() < 0.4 else len(o.vdirs) - 1
    raw = o.invs[k]
    text = foreign.dump(rng, raw)
    how = rng.choice(["dict", "dict", "file", "file", "zip", "object", "inventory"])
    ctx.note("read", how, len(o.vdirs), tuple(o.features)[:3])
    ctx.sig.append((k, len(o.content), sum(map(len, o.states)), tuple(o.features)))
    given = copy.deepcopy(raw)
    if how == "dict":
        i = ctx.call("Inventory(data)", lib.ocfl.Inventory, given)
    elif how == "file":
        p = ctx.path("some inventory.json")
        with open(p, "wb") as fh:
            fh.write(text)
        i = ctx.call("Inventory(filepath)", lib.ocfl.Inventory, filepath=p)
    elif how == "zip":
        from ocfl.fsw import fsw_openfs
        p = ctx.path("a.zip")
        with zipfile.ZipFile(p, "w") as z:
            z.writestr("d/inventory.json", text)
        i = ctx.call("Inventory(fsw)", lib.ocfl.Inventory, filepath="d/inventory.json", fsw=ctx.call("openfs", fsw_openfs, "zip://" + p))
    elif how == "object":
        d = ctx.path("obj")
        foreign.write(o, d)
        k = len(o.vdirs) - 1
        raw = o.invs[k]
        ob = lib.ocfl.Object(path=d)
        i = ctx.call("parse_inventory", ob.parse_inventory)
        # The object normalizes digests of manifest and state
        raw = copy.deepcopy(raw)
        raw["manifest"] = {dg.lower(): ps for dg, ps in raw["manifest"].items()}
        for b in raw["versions"].values():
            b["state"] = {dg.lower(): ps for dg, ps in b["state"].items()}
        given = copy.deepcopy(raw)
    else:
        i = ctx.call("Inventory(inventory)", lib.ocfl.Inventory, lib.ocfl.Inventory(given))
    ctx.check(i.data == raw, "data differs from the inventory", "%s", how)
    accessors(ctx, i, raw, o, k, how)
    ctx.check(i.data == raw and given == raw, "reading changed the inventory", "%s", how)
    # Written and read back
    ctx.check(json.loads(ctx.call("as_json", i.as_json)) == raw, "as_json has another meaning")
    p = ctx.path("out.json")
    with open(p, "w", encoding="utf-8") as fh:
        ctx.call("write_json", i.write_json, fh)
    with open(p, "rb") as fh:
        back = json.loads(fh.read().decode("utf8"))
    ctx.check(back == raw, "write_json has another meaning")
    ctx.check(ctx.call("read back", lib.ocfl.Inventory, filepath=p).data == raw, "written inventory reads back differently")
    # Copies are independent
    for _ in range(3):
        c = lib.ocfl.Inventory(i if rng.random() < 0.6 else i.data)
        done = []
        for _ in range(rng.choice([1, 2, 5])):
            done.append(ctx.call("mutate", mutate, ctx, c, o.algs[k]))
        ctx.check(i.data == raw, "changing a copy changed the original", "%s", done)
        ctx.count("copies mutated")
    src = copy.deepcopy(raw)
    c = lib.ocfl.Inventory(src)
    done = [ctx.call("mutate", mutate, ctx, c, o.algs[k]) for _ in range(5)]
    ctx.check(src == raw, "changing an inventory changed the dictionary it was made from", "%s", done)
    # Normalizing
    c = lib.ocfl.Inventory(i)
    ctx.call("normalize_digests", c.normalize_digests, o.algs[k])
    want = copy.deepcopy(raw)
    want["manifest"] = {dg.lower(): ps for dg, ps in raw["manifest"].items()}
    for b in want["versions"].values():
        b["state"] = {dg.lower(): ps for dg, ps in b["state"].items()}
    ctx.check(c.data == want, "normalizing digests changed the meaning", "got %.400s", json.dumps(c.data))
    accessors(ctx, c, want, o, k, "normalized")
    if ctx.rng.random() < 0.3 and any(dg != dg.lower() for dg in raw["manifest"]):
        ctx.count("mixed-case digests normalized")


def build_case(ctx):
    """Build an inventory with the API, following a model."""
    rng = ctx.rng
    i = lib.ocfl.Inventory()
    alg = rng.choice(["sha512", "sha256"])
    cd = rng.choice([None, None, "data", "c"])
    width = rng.choice([None, None, None, 2, 3, 4, 5])
    i.id, i.digest_algorithm, i.spec_version = gen.object_id(rng), alg, rng.choice(["1.0", "1.1"])
    if cd:
        i.content_directory = cd
    if rng.random() < 0.5:
        i.init_manifest_and_versions()
    else:
        i.manifest_add_if_not_present()
    fix = rng.sample(["md5", "sha1", "blake2b-160"], rng.choice([0, 0, 1, 2]))
    for a in fix:
        i.add_fixity_type(a)
    nv = rng.choice([1, 2, 3, 5, 10, 12]) if width is None or width > 2 else rng.choice([1, 2, 9, 10, 12])
    pool = gen.Pool(rng, False)
    names = {}                       # logical path -> used ever (so that no conflict arises)
    man, states, metas = {}, [], []  # model: content path -> bytes
    ctx.note("build", alg, cd, width)
    vdirs = []
    for n in range(1, nv + 1):
        want = "v%d" % n if width is None else "v%0*d" % (width, n)
        m = gen.meta(rng)
        carry = bool(states) and rng.random() < 0.6
        st = {}
        kw = {"zero_padded_width": width} if n == 1 or rng.random() < 0.3 else {}
        if width == 2 and n == 10:
            before = copy.deepcopy(i.data)
            ctx.refused("add_version beyond width", (lib.ObjectException, lib.InventoryException), i.add_version, **kw)
            ctx.check(i.data == before, "refused add_version changed the inventory")
            break
        if carry:
            st = dict(states[-1])
            kw["state"] = copy.deepcopy(i.current_version.state)
        how = rng.choice(["object", "dict", "set"])
        if how == "object":
            kw["metadata"] = lib.vmeta(m)
        elif how == "dict":
            kw["metadata"] = {x: y for x, y in [("created", m["created"]), ("message", m["message"])] if y is not None}
            if m["name"] is not None:
                kw["metadata"]["user"] = {x: m[x] for x in ("name", "address") if m[x] is not None}
        v = ctx.call("add_version", i.add_version, **kw)
        ctx.check(v.vdir == want and i.head == want and v.number == n, "name of added version wrong", "%s head %s, expected %s", v.vdir, i.head, want)
        vdirs.append(want)
        if how == "set":
            v.created = m["created"]
            if m["message"] is not None:
                v.message = m["message"]
            if m["name"] is not None:
                v.user_name = m["name"]
                if m["address"] is not None:
                    v.user_address = m["address"]
        v.state_add_if_not_present()
        states.append(st)
        metas.append(m)
        for _ in range(rng.choice([0, 1, 2, 4, 6])):
            op = rng.choice(["add", "add", "add", "del", "dup", "unknown"])
            before = copy.deepcopy(i.data)
            if op == "add":
                lp = gen.new_path(rng, names)
                names[lp] = True
                data = pool.pick()
                dg = oracle.digest(data, alg)
                dedupe = rng.random() < 0.6
                given = None if rng.random() < 0.6 else gen.new_path(rng, [p.split("/", 2)[2] for p in man] + list(names))
                if given:
                    names[given] = True
                have = [p for p in man if man[p] == data]
                got = ctx.call("add_file", v.add_file, digest=dg, logical_path=lp, content_path=given, dedupe=dedupe)
                if have and dedupe:
                    ctx.check(got is None, "content stored again though present", "%s", got)
                else:
                    ctx.check(got == "/".join([want, cd or "content", given or lp]), "content path of added file wrong", "%s", got)
                    man[got] = data
                    for a in fix:
                        i.add_fixity_data(a, oracle.digest(data, a), got)
                st[lp] = data
            elif op == "del" and st:
                lp = rng.choice(sorted(st))
                data = st.pop(lp)
                got = ctx.call("delete_logical_path", v.delete_logical_path, lp)
                ctx.check(got == oracle.digest(data, alg), "digest returned by delete_logical_path wrong")
                if data not in st.values():
                    for p in [p for p in man if man[p] == data and p.startswith(want + "/")]:
                        del man[p]
            elif op == "dup" and st:
                ctx.refused("add_file of used logical path", lib.InventoryException, v.add_file, digest=oracle.digest(pool.pick(), alg), logical_path=rng.choice(sorted(st)))
                ctx.check(i.data == before, "refused add_file changed the inventory")
            elif op == "unknown":
                gone = [p for p in names if p not in st]
                ctx.refused("delete of unknown logical path", lib.InventoryException, v.delete_logical_path, rng.choice(sorted(gone) or ["nope"]))
                ctx.check(i.data == before, "refused delete_logical_path changed the inventory")
                if man:
                    ctx.refused("add_file_to_manifest of used content path", lib.InventoryException, i.add_file_to_manifest, digest=oracle.digest(pool.pick(), alg), content_path=rng.choice(sorted(man)))
                    ctx.check(i.data == before, "refused add_file_to_manifest changed the inventory")
            ctx.count("build op " + op)
    # Result against the model
    ctx.check(i.version_directories == vdirs, "versions built wrong", "%s", i.version_directories)
    ctx.check(i.content == {p: oracle.digest(x, alg) for p, x in man.items()}, "manifest built wrong", "%s expected paths %s", sorted(i.content), sorted(man))
    for n, v in enumerate(i.versions()):
        got = {lp: v.digest_for_logical_path(lp) for lp in v.logical_paths}
        ctx.check(got == {lp: oracle.digest(x, alg) for lp, x in states[n].items()} and len(v.logical_paths) == len(got), "state built wrong", "%s", v.vdir)
        m = metas[n]
        ctx.check((v.created, v.message, v.user_name, v.user_address) == (m["created"], m["message"], m["name"], m["address"] if m["name"] is not None else None),
                  "metadata built wrong", "%s %s", v.vdir, m)
        for lp, data in states[n].items():
            cp = v.content_path_for_logical_path(lp)
            ctx.check(man.get(cp) == data, "logical path of built inventory resolves to other content", "%s %s", lp, cp)
    for a in fix:
        ctx.check({p: d for d, ps in i.fixity[a].items() for p in ps} == {p: oracle.digest(x, a) for p, x in man.items()}, "fixity built wrong", a)
        ctx.check(sum(len(ps) for ps in i.fixity[a].values()) == len(man), "fixity lists a path twice", a)
    used = {oracle.digest(x, alg) for s in states for x in s.values()}
    errs, _ = oracle.check_inventory(i.data)
    orphan = set(i.manifest) - used
    if not orphan:      # content left by deletion from a state shared with an earlier version stays referenced; others conform
        ctx.check(not errs, "built inventory does not conform", "%s", errs[:3])
    ctx.check(json.loads(i.as_json()) == i.data, "as_json of built inventory has another meaning")
    ctx.sig.append((nv, len(man), sum(map(len, states)), len(fix)))


def case(ctx):
    if ctx.index % 3 == 0:
        build_case(ctx)
    else:
        read_case(ctx)
