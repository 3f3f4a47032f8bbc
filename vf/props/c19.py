"""C19: BagIt export and import preserve content and metadata and reject damage."""
import datetime
import hashlib
import os
import re
import shutil
import unicodedata

import bagit
from ocfl.bagger import BaggerError

from vf import cli, gen, lib, oracle
from vf.monitors import read_tree, snapshot, snap_diff, write_tree

ID = "C19"
LEVEL = "exploration"
QUICK, THOROUGH = 600, 12000
MIN_DISTINCT = 200
RULE = ("Generated objects; every case exports versions as bags (library or ocfl-object.py extract --dstbag), checks each bag with a separately written reader (declaration, manifest, tag manifest, "
        "Payload-Oxum, tags), uses it as source for a new object, an update or both (library or command line) with or without overriding metadata, compares files and metadata, and then injects "
        "single damages (see counts) which must be refused with nothing created. Distinct by content shape, metadata, configuration and damages.")
OBJ = lib.ocfl.Object
VM = lib.VersionMetadata
REFUSED = (BaggerError, bagit.BagError)


def fits(name):
    """File names every bag reader agrees on."""
    return (all(ch.isprintable() for ch in name.replace(" ", "x")) and "%" not in name and "\\" not in name and not name.startswith("~") and "$" not in name
            and name == name.strip() and unicodedata.normalize("NFC", name) == name and "\u00a0" not in name)


def clean(tree):
    out = {}
    for p, c in sorted(tree.items()):
        q = "/".join(s if fits(s) else "n%s" % hashlib.md5(s.encode("utf8")).hexdigest()[:6] for s in p.split("/"))
        if not gen.conflict(q, out):
            out[q] = c
    return out


TEXT = ["Initial import", "x", "with: colon", "quote \" and \\ back", "\u6587\u4ef6 \u00e9 \U0001f600", "a" * 300, "null", "%s %d", "<b>", "External-Identifier: other", "two  spaces", "# hash", "mailto:x@y", "tab\tinside"]
NAMES = ["Alice", "Bob \u00e9", "O'Neil \"q\"", "\u6587 \u5b57", "A: B"]
MAILS = ["mailto:alice@example.org", "mailto:a.person+tag@example.org", "mailto:mailto:x@y", "mailto:\u00e9@example.org", "MAILTO:up@example.org", "https://orcid.org/0000-0000", "info:x"]


def meta(rng):
    m = {"created": gen.created(rng), "message": None, "name": None, "address": None}
    if rng.random() < 0.8:
        m["message"] = rng.choice(TEXT)
    if rng.random() < 0.75:
        m["name"] = rng.choice(NAMES)
        if rng.random() < 0.8:
            m["address"] = rng.choice(MAILS)
    return m


def ident(rng):
    i = gen.object_id(rng)
    return i if "\n" not in i and i == i.strip() else "http://example.org/%d" % rng.randrange(10 ** 6)


def read_bag(ctx, d):
    """Independent reading of a bag; returns (payload files, tags) or fails."""
    tree = read_tree(d)
    payload = {p[5:]: c for p, c in tree.items() if p.startswith("data/")}
    ctx.check(os.path.isdir(os.path.join(d, "data")), "bag without payload directory")
    decl = tree.get("bagit.txt", b"").decode().splitlines()
    ctx.check(len(decl) == 2 and re.fullmatch(r"BagIt-Version: (0\.97|1\.0)", decl[0]) and decl[1] == "Tag-File-Character-Encoding: UTF-8", "bag declaration wrong", "%s", decl)
    other = {p: c for p, c in tree.items() if not p.startswith("data/")}
    ctx.check(set(other) == {"bagit.txt", "bag-info.txt", "manifest-sha512.txt", "tagmanifest-sha512.txt"}, "bag files wrong", "%s", sorted(other))

    def manifest(name):
        out = {}
        for line in other[name].decode("utf8").split("\n"):
            if line:
                h, p = line.split("  ", 1) if "  " in line else line.split(" ", 1)
                ctx.check(p not in out, "bag manifest lists a file twice", "%s", p)
                out[p] = h
        return out
    sha = lambda c: hashlib.sha512(c).hexdigest()  # noqa: E731
    ctx.check(manifest("manifest-sha512.txt") == {"data/" + p: sha(c) for p, c in payload.items()}, "bag manifest wrong", "%s vs %s", manifest("manifest-sha512.txt"), sorted(payload))
    ctx.check(manifest("tagmanifest-sha512.txt") == {p: sha(c) for p, c in other.items() if not p.startswith("tagmanifest")}, "bag tag manifest wrong")
    tags = {}
    for line in other["bag-info.txt"].decode("utf8").split("\n"):
        if line:
            ctx.check(": " in line, "bag-info line wrong", "%r", line)
            k, v = line.split(": ", 1)
            ctx.check(k not in tags, "tag repeated", "%s", k)
            tags[k] = v
    ctx.check(tags.get("Payload-Oxum") == "%d.%d" % (sum(len(c) for c in payload.values()), len(payload)), "Payload-Oxum wrong", "%s", tags)
    return payload, tags


def today():
    return datetime.date.today().strftime("%Y-%m-%d")


def want_tags(m, i, set_date):
    t = {"External-Identifier": i}
    if m["message"]:
        t["External-Description"] = m["message"]
    if m["name"]:
        t["Contact-Name"] = m["name"]
    if m["address"] and m["address"].startswith("mailto:"):
        t["Contact-Email"] = m["address"][7:]
    t["Bagging-Date"] = m["created"][:10] if set_date else None
    return t


def export(ctx, d, v, n, set_date, bag, how):
    """Export version v as bag; returns the days it may be dated."""
    days = {today()}
    if how == "cli":
        args = ["extract", "--objdir", d, "--dstbag", bag]
        if v != n or ctx.rng.random() < 0.5:
            args += ["--objver", "v%d" % v if v != n or ctx.rng.random() < 0.7 else "head"]
        if set_date:
            args.append("--set-bagging-date")
        r = cli.run("ocfl-object.py", args)
        ctx.check(r.status == 0 and "Extracted content for v%d saved as Bagit bag in %s" % (v, bag) in r.out, "command line bag export failed", "%s", r)
    else:
        md = ctx.call("extract", OBJ().extract, objdir=d, version="v%d" % v, dstdir=bag)
        ctx.call("bag_extracted_version", lib.ocfl.bag_extracted_version, bag, md, **({"set_bagging_date": True} if set_date else {}))
    days.add(today())
    return days


def retag(d):
    """Rewrite the tag manifest to agree with the other tag files."""
    with open(os.path.join(d, "tagmanifest-sha512.txt"), "w", encoding="utf8") as fh:
        for n in sorted(os.listdir(d)):
            if os.path.isfile(os.path.join(d, n)) and not n.startswith("tagmanifest"):
                with open(os.path.join(d, n), "rb") as f2:
                    fh.write("%s  %s\n" % (hashlib.sha512(f2.read()).hexdigest(), n))


def sub_digest(line, rng):
    k = rng.randrange(128)
    return line[:k] + ("0" if line[k] != "0" else "f") + line[k + 1:]


def damage(rng, d, kind):
    """Damage the bag; False if it does not apply."""
    j = lambda *p: os.path.join(d, *p)  # noqa: E731
    files = sorted(p for p in read_tree(d) if p.startswith("data/"))

    def rd(n):
        with open(j(n), "rb") as fh:
            return fh.read()

    def wr(n, c):
        with open(j(n), "wb") as fh:
            fh.write(c)
    if kind.startswith("payload") and kind != "payload extra" and not files:
        return False
    if kind == "payload byte":
        p = rng.choice(files)
        c = rd(p)
        if not c:
            return False
        k = rng.choice([0, len(c) - 1, rng.randrange(len(c))])
        wr(p, c[:k] + bytes([c[k] ^ (1 << rng.randrange(8))]) + c[k + 1:])
    elif kind == "payload truncated":
        p = rng.choice(files)
        c = rd(p)
        if not c:
            return False
        wr(p, c[:-1])
    elif kind == "payload appended":
        p = rng.choice(files)
        wr(p, rd(p) + b"\0")
    elif kind == "payload deleted":
        os.remove(j(rng.choice(files)))
    elif kind == "payload renamed":
        p = rng.choice(files)
        os.rename(j(p), j(p) + "-x")
    elif kind == "payload swapped":
        two = [(a, b) for a in files for b in files if a < b and rd(a) != rd(b)]
        if not two:
            return False
        a, b = rng.choice(two)
        ca, cb = rd(a), rd(b)
        wr(a, cb)
        wr(b, ca)
    elif kind == "payload extra":
        write_tree(j("data"), {"extra-%d" % rng.randrange(99): rng.choice([b"", b"x"])})
    elif kind == "payload moved out of data":
        p = rng.choice(files)
        os.rename(j(p), j("moved"))
    elif kind in ("manifest line deleted", "manifest digest altered", "manifest path altered", "manifest line added"):
        lines = rd("manifest-sha512.txt").decode("utf8").splitlines(True)
        if kind == "manifest line added":
            lines.append("%s  data/not-there\n" % ("0" * 128))
        elif not lines:
            return False
        else:
            k = rng.randrange(len(lines))
            lines[k] = {"manifest line deleted": "", "manifest digest altered": sub_digest(lines[k], rng), "manifest path altered": lines[k].rstrip("\n") + "x\n"}[kind]
        wr("manifest-sha512.txt", "".join(lines).encode("utf8"))
        if rng.random() < 0.6:
            retag(d)
    elif kind == "tag manifest digest altered":
        lines = rd("tagmanifest-sha512.txt").decode("utf8").splitlines(True)
        k = rng.randrange(len(lines))
        lines[k] = sub_digest(lines[k], rng)
        wr("tagmanifest-sha512.txt", "".join(lines).encode("utf8"))
    elif kind == "tag file altered":
        wr("bag-info.txt", rd("bag-info.txt") + rng.choice([b"Contact-Name: Mallory\n", b"X: y\n", b"\n"]))
    elif kind == "tag value altered":
        c = rd("bag-info.txt")
        wr("bag-info.txt", c.replace(b"External-Identifier: ", b"External-Identifier: x"))
    elif kind == "tag file missing":
        os.remove(j("bag-info.txt"))
    elif kind == "declaration missing":
        os.remove(j("bagit.txt"))
        if rng.random() < 0.5:
            retag(d)
    elif kind == "declaration altered":
        wr("bagit.txt", rng.choice([b"", b"BagIt-Version: 0.97\n", b"BagIt-Version: 7.1\nTag-File-Character-Encoding: UTF-8\n", b"BagIt-Version: x\nTag-File-Character-Encoding: UTF-8\n",
                                    b"BagIt-Version: 0.97\nTag-File-Character-Encoding: UTF-8\n\n", b"Tag-File-Character-Encoding: UTF-8\n"]))
    elif kind == "manifest missing":
        os.remove(j("manifest-sha512.txt"))
        if rng.random() < 0.5:
            retag(d)
    elif kind == "payload directory missing":
        shutil.rmtree(j("data"))
    elif kind == "incomplete with fetch":
        if not files:
            return False
        p = rng.choice(files)
        n = len(rd(p))
        os.remove(j(p))
        wr("fetch.txt", ("http://example.org/f %s %s\n" % (rng.choice(["-", n]), p)).encode("utf8"))
        if rng.random() < 0.7:
            retag(d)
    elif kind == "size wrong":
        c = rd("bag-info.txt")
        wr("bag-info.txt", re.sub(rb"Payload-Oxum: (\d+)\.(\d+)", lambda m: b"Payload-Oxum: %d.%d" % ((int(m.group(1)) + 1, int(m.group(2))) if rng.random() < 0.5 else (int(m.group(1)), int(m.group(2)) + 1)), c))
        retag(d)
    elif kind == "not a bag":
        shutil.rmtree(d)
        if rng.random() < 0.7:
            write_tree(d, {"f": b"x"})
    else:
        raise AssertionError(kind)
    return True


DAMAGES = ["payload byte", "payload byte", "payload truncated", "payload appended", "payload deleted", "payload renamed", "payload swapped", "payload extra", "payload moved out of data",
           "manifest line deleted", "manifest digest altered", "manifest path altered", "manifest line added", "tag manifest digest altered", "tag file altered", "tag value altered",
           "tag file missing", "declaration missing", "declaration altered", "manifest missing", "payload directory missing", "incomplete with fetch", "size wrong", "not a bag"]


def imported(ctx, bag, m, i, set_date, days, over, how, target=None):
    """Use the bag as source of a new object or an update of target; check result. Returns its path."""
    rng = ctx.rng
    new = target or ctx.path("imp%d" % len(ctx.sig))
    o = gen.config(rng) if how == "lib" else {}
    want = {k: over.get(k) or m[k] for k in ("message", "name")}
    mail = m["address"] if m["address"] and m["address"].startswith("mailto:") and (m["name"] or over.get("name")) else None
    want["address"] = over.get("address") or mail
    ids = {i, over.get("id")} - {None}
    before = snapshot(bag)
    if how == "cli":
        cmd = "update" if target else "create"
        args = [cmd, "--objdir", new, "--srcbag", bag]
        if target:
            args += ["--digest", OBJ(path=target).parse_inventory().digest_algorithm]
        elif over.get("id"):
            args += ["--id", over["id"]]
        for k in ("created", "message", "name", "address"):
            if over.get(k):
                args.append("--%s=%s" % (k, over[k]))
        r = cli.run("ocfl-object.py", args)
        ctx.check(r.status == 0, "command line %s from bag failed" % cmd, "%s", r)
        inv = OBJ(path=new).parse_inventory()
    else:
        md = VM(**{k: v for k, v in over.items() if k != "id"})
        md.id = over.get("id")
        src = ctx.call("bag_as_source", lib.ocfl.bag_as_source, bag, md)
        ctx.check(os.path.realpath(src) == os.path.realpath(os.path.join(bag, "data")), "bag source directory wrong", "%s", src)
        ctx.check(md.id == (over.get("id") or i), "identifier lost", "%r, expected %r", md.id, over.get("id") or i)
        if target:
            inv = ctx.call("update from bag", OBJ().add_version_with_content, objdir=target, srcdir=src, metadata=md)
        else:
            inv = ctx.call("create from bag", OBJ(identifier=md.id, **o).create, srcdir=src, objdir=new, metadata=md)
    ctx.check(snapshot(bag) == before, "import changed the bag", "%s", snap_diff(before, snapshot(bag)))
    bad = oracle.check_object(new)
    ctx.check(not bad, "object from bag does not conform", "%s", bad[:3])
    if not target:
        ctx.check(inv.id in ids and inv.id == (over.get("id") or i), "object identifier differs", "%r expected %r", inv.id, ids)
    head = inv.data["versions"][inv.head]
    got = {"message": head.get("message") or None, "name": head.get("user", {}).get("name"), "address": head.get("user", {}).get("address")}
    ctx.check(got == want, "metadata changed by the round trip", "%s, expected %s", got, want)
    dates = {over["created"]} if over.get("created") else {x + "T00:00:00Z" for x in ({m["created"][:10]} if set_date else days)}
    ctx.check(head["created"] in dates, "created date wrong", "%s, expected %s", head["created"], dates)
    out = ctx.path("out%d" % len(ctx.sig))
    ctx.call("extract", OBJ().extract, objdir=new, version="head", dstdir=out)
    return new, read_tree(out)


def case(ctx):
    rng = ctx.rng
    pool = gen.Pool(rng, big=rng.random() < 0.2)
    n = rng.choice([1, 1, 2, 3])
    states, metas = [], []
    t = {}
    for k in range(n):
        t = clean(gen.tree(rng, pool) if k == 0 else gen.evolve(rng, t, pool))
        states.append(t)
        metas.append(meta(rng))
        write_tree(ctx.path("src", "v%d" % (k + 1)), t)
        os.makedirs(ctx.path("src", "v%d" % (k + 1)), exist_ok=True)
    i = ident(rng)
    d = ctx.path("obj")
    ctx.call("build", OBJ(identifier=i, **gen.config(rng)).build, srcdir=ctx.path("src"), objdir=d,
             versions_metadata={k + 1: lib.vmeta(metas[k]) for k in range(n)})
    keep = snapshot(d)
    for v in rng.sample(range(1, n + 1), rng.choice([1, min(2, n)])):
        m, t = metas[v - 1], states[v - 1]
        set_date = rng.random() < 0.4
        how = rng.choice(["lib", "cli", "lib"])
        bag = ctx.path("bag%d" % v)
        days = export(ctx, d, v, n, set_date, bag, how)
        payload, tags = read_bag(ctx, bag)
        ctx.check(payload == t, "bag payload differs from version", "%s vs %s", sorted(payload), sorted(t))
        want = want_tags(m, i, set_date)
        for k, w in want.items():
            if k == "Bagging-Date" and w is None:
                ctx.check(tags.get(k) in days, "Bagging-Date is not today", "%s", tags.get(k))
            else:
                ctx.check(tags.get(k) == w, "bag tag wrong: " + k, "%r, expected %r", tags.get(k), w)
        extra = set(tags) - set(want) - {"Payload-Oxum", "Bag-Software-Agent"}
        ctx.check(not extra, "bag tags that were not in the version", "%s", extra)
        over = {}
        if rng.random() < 0.5:
            for k, w in (("created", gen.created(rng)), ("message", "other message"), ("name", "Other"), ("address", "mailto:other@example.org")):
                if rng.random() < 0.5:
                    over[k] = w
        if "address" in over and not (m["name"] or over.get("name")):
            over["name"] = "Other"
        ihow = rng.choice(["lib", "cli", "lib"])
        ctx.note("v", v == n, len(t), set_date, how, ihow, sorted(over), [bool(m[k]) for k in ("message", "name", "address")])
        if rng.random() < 0.2:   # an identifier of its own
            if ihow == "lib":
                over = dict(over, id="http://example.org/own")
            else:
                new = ctx.path("clash")
                r = cli.run("ocfl-object.py", ["create", "--objdir", new, "--srcbag", bag, "--id", "some other id"])
                ctx.check(r.status != 0 and not os.path.exists(new), "identifier that differs from the bag accepted", "%s", r)
                over = dict(over, id=i)
        new, got = imported(ctx, bag, m, i, set_date, days, over, ihow)
        ctx.check(got == t, "files changed by the round trip", "%s vs %s", sorted(got), sorted(t))
        if rng.random() < 0.4:
            ctx.note("update")
            _, got = imported(ctx, bag, m, i, set_date, days, {k: w for k, w in over.items() if k != "id"}, rng.choice(["lib", "cli"]), target=d)
            ctx.check(got == t, "files changed by the round trip (update)", "%s vs %s", sorted(got), sorted(t))
            for k in range(n):   # earlier versions are still there
                out = ctx.path("chk%d-%d" % (v, k))
                ctx.call("extract", OBJ().extract, objdir=d, version="v%d" % (k + 1), dstdir=out)
                ctx.check(read_tree(out) == states[k], "update from bag changed an earlier version")
            shutil.rmtree(d)
            ctx.call("build", OBJ(identifier=i).build, srcdir=ctx.path("src"), objdir=d, versions_metadata={k + 1: lib.vmeta(metas[k]) for k in range(n)})
            keep = snapshot(d)
        damages(ctx, bag, d, new)
    ctx.check(snapshot(d) == keep, "export changed the object", "%s", snap_diff(keep, snapshot(d)))


def damages(ctx, bag, d, new):
    rng = ctx.rng
    bad = ctx.path("bad")
    for kind in rng.sample(DAMAGES, 5 if ctx.tier == "quick" else 8):
        shutil.rmtree(bad, ignore_errors=True)
        shutil.copytree(bag, bad)
        if not damage(rng, bad, kind):
            continue
        ctx.count("damage: " + kind)
        ctx.note("damage", kind)
        before = snapshot(ctx.dir)
        if rng.random() < 0.3:
            tgt = rng.random() < 0.5
            obj = d if tgt else ctx.path("never")
            r = cli.run("ocfl-object.py", ["update" if tgt else "create", "--objdir", obj, "--srcbag", bad] + ([] if tgt else ["--id", "some-id"] if rng.random() < 0.3 else []))
            ctx.check(r.status != 0, "damaged bag accepted on the command line: " + kind, "%s", r)
        else:
            md = VM()
            try:
                src = lib.ocfl.bag_as_source(bad, md)
            except Exception as e:  # pylint: disable=broad-except
                ctx.check(isinstance(e, REFUSED) or kind in ("declaration altered", "size wrong"), "damaged bag refused with %s: %s" % (type(e).__name__, kind), "%s", e)
                ctx.check((md.id, md.created, md.message, md.name, md.address) == (None,) * 5, "refused bag set metadata", "%s", vars(md))
            else:
                ctx.fail("damaged bag accepted: " + kind, "source %s" % src)
        ctx.check(snapshot(ctx.dir) == before, "refusal of bag changed storage: " + kind, "%s", snap_diff(before, snapshot(ctx.dir)))
        ctx.stats["calls"] += 1
    if rng.random() < 0.2:
        # A bag need not have a tag manifest; extra tag files and directories are allowed
        shutil.rmtree(bad, ignore_errors=True)
        shutil.copytree(bag, bad)
        kind = rng.choice(["no tag manifest", "extra tag file", "repeated tags"])
        if kind == "no tag manifest":
            os.remove(os.path.join(bad, "tagmanifest-sha512.txt"))
        elif kind == "extra tag file":
            write_tree(bad, {"notes.txt": b"x", "meta/more.txt": b"y"})
        else:
            with open(os.path.join(bad, "bag-info.txt"), "a", encoding="utf8") as fh:
                fh.write("External-Description: second\nExternal-Identifier: second\nContact-Name: Second\nContact-Email: s@example.org\nBagging-Date: 1999-01-01\n")
            retag(bad)
        md = VM()
        ctx.call("bag_as_source (%s)" % kind, lib.ocfl.bag_as_source, bad, md)
        dst = ctx.path("kind")
        shutil.rmtree(dst, ignore_errors=True)
        ctx.call("create from bag (%s)" % kind, OBJ(identifier=md.id).create, srcdir=os.path.join(bad, "data"), metadata=md, objdir=dst)
        e = oracle.check_object(dst)
        ctx.check(not e, "object from bag does not conform", "%s: %s", kind, e[:2])
        ctx.note("accepted", kind)
