"""C08: every corruption of a stored object is detected."""
import copy
import json
import os
import shutil

from vf import foreign, gen, lib, oracle

ID = "C08"
LEVEL = "exploration"
QUICK, THOROUGH = 900, 20000
MIN_DISTINCT = 100
RULE = ("For each conforming object (independent writer) about a dozen single corruptions are applied one at a time and reverted: bit flips at buffer boundaries, truncation, "
        "growth, same-size replacement, swaps, deletion, renames, stray files and empty directories, inventory/sidecar/declaration damage, wrong manifest/fixity digests "
        "with consistent sidecars in root and prior inventories, missing/renamed/extra version directories. Each must make validation fail, with an error of the right family. "
        "Non-trivial = at least one corruption applied; distinct by (mutations, features).")
ASSUMPTIONS = ["logs/ and extension directories are outside the integrity guarantee", "surrounding whitespace in declaration and sidecar is not integrity relevant"]

STRUCT = True


def write(p, data):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb") as fh:
        fh.write(data)


class Bench:
    """Apply one mutation to the object directory, validate, and restore it."""

    def __init__(self, ctx, o, d):
        self.ctx, self.o, self.d, self.rng = ctx, o, d, ctx.rng
        self.aged = ctx.rng.random() < 0.5
        self.sound()

    def sound(self):
        if self.aged:
            self.ctx.count("damage that leaves the times alone")
            lib.age(self.d)
            passed, v = self.ctx.call("validate sound", lib.validate, self.d)
            self.ctx.check(passed is True, "sound object rejected", "%s", str(v)[:300])

    def restore(self):
        shutil.rmtree(self.d)
        foreign.write(self.o, self.d)

    def expect(self, name, families, structural, detail=""):
        ctx = self.ctx
        ctx.count("corruption: " + name)
        ctx.sig.append((name,))
        if self.aged:
            lib.age(self.d)
        modes = [{}] + ([{"check_digests": False}] if structural else [])
        modes.append({"log_errors": False, "log_warnings": True})
        for kw in modes:
            passed, v = ctx.call("validate after " + name, lib.validate, self.d, **kw)
            errs = lib.codes(v, "E")
            ctx.check(passed is False and errs, "undetected corruption: " + name, "%s kw=%s features=%s", detail, kw, self.o.features)
            ctx.check(any(e[:4] in families for e in errs), "corruption reported under the wrong code: " + name,
                      "%s got %s expected one of %s (%s)", detail, errs, families, kw)


def m_content(b):
    """Damage one content file."""
    o, rng = b.o, b.rng
    f = rng.choice(sorted(o.content))
    data = o.content[f]
    kinds = ["append"]
    if data:
        kinds += ["flip", "flip", "flip", "truncate", "empty"]
    else:
        kinds += ["append"]
    k = rng.choice(kinds)
    if k == "flip":
        pos = rng.choice([0, len(data) - 1, rng.randrange(len(data)), min(len(data) - 1, 65535), min(len(data) - 1, 65536), min(len(data) - 1, 262144), (len(data) - 1) // 65536 * 65536])
        new = data[:pos] + bytes([data[pos] ^ (1 << rng.randrange(8))]) + data[pos + 1:]
    elif k == "truncate":
        new = data[:-1]
    elif k == "empty":
        new = b""
    else:
        new = data + bytes([rng.randrange(256)])
    write(os.path.join(b.d, f), new)
    b.expect("content " + k, {"E092"}, False, "%s size %d" % (f, len(data)))


def m_swap(b):
    """Exchange the content of two files (same size where possible)."""
    fs = sorted(b.o.content)
    pairs = [(x, y) for x in fs for y in fs if x < y and b.o.content[x] != b.o.content[y]]
    if not pairs:
        return
    same = [p for p in pairs if len(b.o.content[p[0]]) == len(b.o.content[p[1]])]
    x, y = b.rng.choice(same or pairs)
    write(os.path.join(b.d, x), b.o.content[y])
    write(os.path.join(b.d, y), b.o.content[x])
    b.expect("content swapped", {"E092"}, False, "%s %s" % (x, y))


def m_delete(b):
    f = b.rng.choice(sorted(b.o.content))
    os.remove(os.path.join(b.d, f))
    b.expect("content file deleted", {"E092", "E024"}, True, f)


def m_rename(b):
    f = b.rng.choice(sorted(b.o.content))
    others = [p for p in b.o.content]
    d, n = os.path.split(f)
    new = os.path.join(d, b.rng.choice([n + "x", n.swapcase(), "." + n, n + " ", n + "__2"]))
    if gen.conflict(new, others) or len(os.path.basename(new).encode()) > 250:
        return
    os.rename(os.path.join(b.d, f), os.path.join(b.d, new))
    b.expect("content file renamed", {"E092"}, True, "%s -> %s" % (f, new))


def m_move_version(b):
    """Move a content file to the same relative path under another version's content directory."""
    if len(b.o.vdirs) < 2:
        return
    f = b.rng.choice(sorted(b.o.content))
    v, rest = f.split("/", 1)
    w = b.rng.choice([x for x in b.o.vdirs if x != v])
    new = w + "/" + rest
    if gen.conflict(new, list(b.o.content)):
        return
    os.makedirs(os.path.dirname(os.path.join(b.d, new)), exist_ok=True)
    os.rename(os.path.join(b.d, f), os.path.join(b.d, new))
    b.expect("content file moved to another version", {"E092"}, True, "%s -> %s" % (f, new))


JUNK = ["logs", "logs.txt", "extensions", "extensions.json", ".nfs0000000001", "Thumbs.db", ".DS_Store", "desktop.ini", "._inventory.json", "inventory.json.tmp", "inventory.json.lock", "inventory.json.sha512.bak",
        "inventory.json.", "Inventory.json", "inventory.JSON", "lost+found", "@eaDir", ".snapshot", ".git", "README.md", "manifest-sha512.txt", "bagit.txt", "ocfl_1.1", "ocfl_layout.json", "deposit", "v0", "v", "V1", "v1.bak",
        "0=ocfl", "1=x", "~", "core", "content", "version_metadata.json", ".gitkeep", "__pycache__", "tmp", "fixity", "sha512", "log", "mutable-head", "extension", "Extensions", "EXTENSIONS", "LOGS", "Logs", "V2", "V001"]


def junk(b, where, *names):
    """A name for something that does not belong there and is not there."""
    name = b.rng.choice(names) if b.rng.random() < 0.5 else b.rng.choice(JUNK) if b.rng.random() < 0.8 else gen.segment(b.rng)
    there = os.path.join(b.d, where)
    return None if name in [".", ".."] + (os.listdir(there) if os.path.isdir(there) else []) else name


def m_stray_content(b):
    v = b.rng.choice(b.o.vdirs)
    have = [p for p in b.o.content]
    rel = "%s/%s/%s" % (v, b.o.content_dir, gen.relpath(b.rng))
    if gen.conflict(rel, have) or os.path.exists(os.path.join(b.d, rel)):
        return
    write(os.path.join(b.d, rel), b.rng.choice([b"", b"stray"] + list(b.o.content.values())))
    b.expect("stray content file", {"E023"}, True, rel)


def m_empty_dir(b):
    v = b.rng.choice(b.o.vdirs)
    have = [p for p in b.o.content]
    rel = "%s/%s/%s" % (v, b.o.content_dir, gen.relpath(b.rng))
    if gen.conflict(rel, have) or os.path.exists(os.path.join(b.d, rel)):
        return
    os.makedirs(os.path.join(b.d, rel))
    b.expect("empty directory in content", {"E024"}, True, rel)


def m_stray_version_file(b):
    v = b.rng.choice(b.o.vdirs)
    k = b.o.vdirs.index(v)
    name = junk(b, v, "stray.txt", "inventory.json.md5", "inventory.json.sha1", ".hidden", "inventory.jsonx", "Inventory.json", "inventory.json.bak", "0=ocfl_object_1.0",
                "inventory.json." + ("sha256" if b.o.algs[k] == "sha512" else "sha512"))
    if name is None or name == b.o.content_dir:
        return
    write(os.path.join(b.d, v, name), b"stray\n")
    b.expect("stray file in version directory", {"E015"}, True, v + "/" + name)


def m_content_dir_is_file(b):
    v = b.rng.choice(b.o.vdirs)
    p = os.path.join(b.d, v, b.o.content_dir)
    had = os.path.isdir(p)
    if had:
        shutil.rmtree(p)
    write(p, b"not a directory")
    b.expect("file in place of the content directory", {"E015", "E092", "E023"}, True, v)


def m_stray_root(b):
    name = junk(b, "", "stray.txt", "inventory.json.md5", ".x", "inventory.json~", "README", "v%d.txt" % (len(b.o.vdirs) + 1), "inventory.json." + ("sha256" if b.o.algs[-1] == "sha512" else "sha512"))
    if name is None or name.startswith("0="):
        return
    write(os.path.join(b.d, name), b"x")
    b.expect("stray file in object root", {"E001"}, True, name)


def m_stray_root_dir(b):
    name = junk(b, "", "stray", "content", "v", "v0", "vv1", "Logs", "extension", ".git", "v1x")
    if name is None or name in ("logs", "extensions"):
        return
    os.makedirs(os.path.join(b.d, name))
    if b.rng.random() < 0.5:
        write(os.path.join(b.d, name, "f"), b"x")
    b.expect("stray directory in object root", {"E001", "E046"}, True, name)


def m_extra_version(b):
    n = len(b.o.vdirs)
    width = len(b.o.vdirs[0]) - 1
    name = b.rng.choice(["v%d" % (n + 1), "v%0*d" % (width, n + 1), "v%d" % (n + 7), "v0%d" % n])
    if name in b.o.vdirs or os.path.exists(os.path.join(b.d, name)):
        return
    os.makedirs(os.path.join(b.d, name))
    if b.rng.random() < 0.6:
        write(os.path.join(b.d, name, "inventory.json"), b.o.files["inventory.json"])
    b.expect("version directory beyond the head", {"E001", "E046"}, True, name)


def m_version_gone(b):
    v = b.rng.choice(b.o.vdirs)
    if b.rng.random() < 0.5:
        shutil.rmtree(os.path.join(b.d, v))
        b.expect("version directory removed", {"E046", "E092"}, True, v)
    else:
        os.rename(os.path.join(b.d, v), os.path.join(b.d, v + "x"))
        b.expect("version directory renamed", {"E046", "E092", "E001"}, True, v)


def m_inventory_bytes(b):
    """Any byte change of the root inventory."""
    raw = b.o.files["inventory.json"]
    pos = b.rng.randrange(len(raw))
    new = b.rng.choice([raw[:pos] + bytes([raw[pos] ^ 1]) + raw[pos + 1:], raw + b" ", raw[:-1], raw + b"\n", raw[:pos] + b" " + raw[pos:]])
    if new == raw:
        return
    write(os.path.join(b.d, "inventory.json"), new)
    b.expect("root inventory byte changed", {"E060", "E033", "E034"} | {"E%03d" % i for i in list(range(8, 12)) + list(range(17, 60)) + [92, 93, 94, 95, 96, 97, 99, 100, 101, 107, 111, 64, 66, 38]}, False, "pos %d" % pos)


def m_version_inventory_bytes(b):
    ks = [k for k in range(len(b.o.vdirs)) if k not in b.o.missing_inv]
    if not ks:
        return
    k = b.rng.choice(ks)
    f = b.o.vdirs[k] + "/inventory.json"
    raw = b.o.files[f]
    new = b.rng.choice([raw + b" ", raw + b"\n", b" " + raw])
    write(os.path.join(b.d, f), new)
    head = k == len(b.o.vdirs) - 1
    b.expect("version inventory whitespace changed" + (" (head)" if head else ""), {"E064"} if head else {"E060"}, head, f)


def m_version_inventory_byte(b):
    """Flip a byte anywhere in a prior version inventory."""
    ks = [k for k in range(len(b.o.vdirs)) if k not in b.o.missing_inv]
    if not ks:
        return
    k = b.rng.choice(ks)
    f = b.o.vdirs[k] + "/inventory.json"
    raw = b.o.files[f]
    pos = b.rng.randrange(len(raw))
    write(os.path.join(b.d, f), raw[:pos] + bytes([raw[pos] ^ 1]) + raw[pos + 1:])
    passed, v = b.ctx.call("validate after version inventory byte flip", lib.validate, b.d)
    b.ctx.count("corruption: version inventory byte flipped")
    b.ctx.check(passed is False, "undetected corruption: version inventory byte flipped", "%s pos %d", f, pos)


def m_sidecar(b):
    where = [("", b.o.algs[-1])] + [(b.o.vdirs[k] + "/", b.o.algs[k]) for k in range(len(b.o.vdirs)) if k not in b.o.missing_inv]
    pre, alg = b.rng.choice(where)
    f = pre + "inventory.json." + alg
    raw = b.o.files[f]
    p = os.path.join(b.d, f)
    k = b.rng.choice(["digit", "gone", "name", "empty", "onlydigest", "other", "short", "joined"])
    structural = False
    if k == "digit":
        i = b.rng.randrange(oracle.HEXLEN[alg])
        c = chr(raw[i])
        write(p, raw[:i] + (b"0" if c != "0" else b"1") + raw[i + 1:])
        fam = {"E060"}
    elif k == "gone":
        os.remove(p)
        fam, structural = {"E058"}, True
    elif k == "name":
        write(p, raw.split()[0] + b" " + b.rng.choice([b"inventory.jsn", b"Inventory.json", b"v1/inventory.json", b"inventory.json.x"]) + b"\n")
        fam = {"E061"}
    elif k == "empty":
        write(p, b"")
        fam = {"E061", "E060"}
    elif k == "onlydigest":
        write(p, raw.split()[0] + b"\n")
        fam = {"E061"}
    elif k == "short":
        write(p, raw.split()[0][:-1] + b" inventory.json\n")
        fam = {"E060", "E061"}
    elif k == "joined":
        write(p, raw.split()[0] + b" extra inventory.json\n")
        fam = {"E061"}
    else:
        other = "sha256" if alg == "sha512" else "sha512"
        os.remove(p)
        write(os.path.join(b.d, pre + "inventory.json." + other), (oracle.digest(b.o.files[pre + "inventory.json"], other) + " inventory.json\n").encode())
        fam, structural = {"E058", "E015", "E001"}, True
    b.expect("sidecar " + k + (" (version)" if pre else " (root)"), fam, structural, f)


def m_declaration(b):
    f = "0=ocfl_object_" + b.o.spec
    p = os.path.join(b.d, f)
    k = b.rng.choice(["gone", "content", "second", "other", "unknown", "content2"])
    if k == "gone":
        os.remove(p)
        fam = {"E003"}
    elif k in ("content", "content2"):
        txt = {"content": b"ocfl_object_" + (b"1.0" if b.o.spec == "1.1" else b"1.1") + b"\n",
               "content2": b.rng.choice([b"", b"ocfl_object\n", b"OCFL_OBJECT_" + b.o.spec.encode() + b"\n", b"ocfl_" + b.o.spec.encode() + b"\n",
                                         b"ocfl object_" + b.o.spec.encode() + b"\n", b"ocfl_object_" + b.o.spec.encode() + b" " * 40 + b"junk\n",
                                         b"ocfl_object_" + b.o.spec.encode() + b"\nextra line\n"])}[k]
        write(p, txt)
        fam = {"E007"}
    elif k == "second":
        write(os.path.join(b.d, "0=ocfl_object_" + ("1.0" if b.o.spec == "1.1" else "1.1")), b"ocfl_object_" + (b"1.0" if b.o.spec == "1.1" else b"1.1") + b"\n")
        fam = {"E003"}
    elif k == "other":
        os.remove(p)
        o = b.rng.choice(["0=ocfl_object_2.0", "0=ocfl_object_1.2", "0=ocfl_1.0", "0=frog", "0=ocfl_object_1.10"])
        write(os.path.join(b.d, o), o[2:].encode() + b"\n")
        fam = {"E003", "E004", "E006"}
    else:
        write(os.path.join(b.d, "0=frog"), b"frog\n")
        fam = {"E003", "E006"}
    b.expect("declaration " + k, fam, True, k)


def m_ext_file(b):
    if os.path.exists(os.path.join(b.d, "extensions")) and not os.path.isdir(os.path.join(b.d, "extensions")):
        return
    write(os.path.join(b.d, "extensions", "stray.txt"), b"x")
    b.expect("file in extensions directory", {"E067"}, True)


def _rewrite(b, k, fn):
    """Change inventory k (0..n-1) consistently: sidecar matches; if k is head, root too."""
    o = b.o
    inv = copy.deepcopy(o.invs[k])
    if fn(inv) is False:
        return False
    raw = json.dumps(inv).encode()
    side = (oracle.digest(raw, o.algs[k]) + " inventory.json\n").encode()
    targets = [] if k in o.missing_inv else [o.vdirs[k] + "/"]
    if k == len(o.vdirs) - 1:
        targets.append("")
    if not targets:
        return False
    for t in targets:
        write(os.path.join(b.d, t + "inventory.json"), raw)
        write(os.path.join(b.d, t + "inventory.json." + o.algs[k]), side)
    return True


def _other_digit(d, rng):
    i = rng.randrange(len(d))
    c = rng.choice([x for x in "0123456789abcdef" if x != d[i].lower()])
    return d[:i] + c + d[i + 1:]


def m_manifest_digest(b):
    """A well-formed but wrong digest, consistently in manifest and states, of one inventory."""
    k = b.rng.randrange(len(b.o.vdirs))

    def fn(inv):
        if not inv["manifest"]:
            return False
        dg = b.rng.choice(sorted(inv["manifest"]))
        new = _other_digit(dg, b.rng)
        inv["manifest"][new] = inv["manifest"].pop(dg)
        for v in inv["versions"].values():
            if dg in v["state"]:
                v["state"][new] = v["state"].pop(dg)
        return True
    if _rewrite(b, k, fn):
        head = k == len(b.o.vdirs) - 1
        b.expect("wrong manifest digest with consistent sidecar" + (" (head)" if head else " (prior)"), {"E092", "E066"}, False, b.o.vdirs[k])


def m_fixity(b):
    k = b.rng.randrange(len(b.o.vdirs))
    alg = b.rng.choice(gen.FIXITY)

    def fn(inv):
        fs = sorted(p for ps in inv["manifest"].values() for p in ps)
        if not fs:
            return False
        f = b.rng.choice(fs)
        blk = {}
        for x in fs:
            if x != f and b.rng.random() < 0.6:
                blk.setdefault(oracle.digest(b.o.content[x], alg), []).append(x)
        good = oracle.digest(b.o.content[f], alg)
        bad = _other_digit(good, b.rng)
        if bad in blk:
            return False
        blk[bad] = [f]
        inv.setdefault("fixity", {})
        inv["fixity"][alg] = blk
        return True
    if _rewrite(b, k, fn):
        b.expect("wrong fixity digest with consistent sidecar" + (" (head)" if k == len(b.o.vdirs) - 1 else " (prior)"), {"E093"}, False, "%s %s" % (b.o.vdirs[k], alg))


def m_prior_lists_more(b):
    """Root inventory that lost a content file a prior inventory lists (file gone from disk too)."""
    o = b.o
    n = len(o.vdirs)
    if n < 2 or not (set(range(n - 1)) - o.missing_inv):
        return
    k = b.rng.choice(sorted(set(range(n - 1)) - o.missing_inv))
    dup = [(d, ps) for d, ps in o.invs[-1]["manifest"].items() if len(ps) > 1 and any(p in o.manifest_paths[k] for p in ps)]
    if not dup:
        return
    d, ps = b.rng.choice(dup)
    f = b.rng.choice([p for p in ps if p in o.manifest_paths[k]])

    def fn(inv):
        inv["manifest"][d] = [p for p in inv["manifest"][d] if p != f]
        for a in list(inv.get("fixity", {})):
            for x in list(inv["fixity"][a]):
                inv["fixity"][a][x] = [p for p in inv["fixity"][a][x] if p != f]
                if not inv["fixity"][a][x]:
                    del inv["fixity"][a][x]
    if _rewrite(b, n - 1, fn):
        os.remove(os.path.join(b.d, f))
        p = os.path.dirname(os.path.join(b.d, f))
        while os.path.basename(p) != o.content_dir and p.startswith(b.d) and not os.listdir(p):
            os.rmdir(p)
            p = os.path.dirname(p)
        b.expect("redundant copy listed by a prior inventory dropped", {"E066", "E023", "E092"}, False, f)


MUTS = [m_content, m_content, m_content, m_swap, m_delete, m_rename, m_move_version, m_stray_content, m_empty_dir, m_stray_version_file, m_content_dir_is_file,
        m_stray_root, m_stray_root_dir, m_extra_version, m_version_gone, m_inventory_bytes, m_version_inventory_bytes, m_version_inventory_byte, m_sidecar, m_sidecar,
        m_declaration, m_declaration, m_ext_file, m_manifest_digest, m_manifest_digest, m_fixity, m_fixity, m_prior_lists_more]
NEEDS_CONTENT = {m_content, m_swap, m_delete, m_rename, m_move_version}


def case(ctx):
    rng = ctx.rng
    o = foreign.make(rng, ctx.tier, pads=foreign.WIDE, big=rng.random() < 0.15, extreme=ctx.index % 90 == 45, nv=52 if ctx.index % 450 == 222 else None)
    d = ctx.path("obj")
    foreign.write(o, d)
    ctx.note("features", ",".join(o.features), len(o.vdirs))
    b = Bench(ctx, o, d)
    for m in rng.sample(MUTS, 12):
        if m in NEEDS_CONTENT and not o.content:
            continue
        ctx.log(m.__name__)
        m(b)
        b.restore()
    passed, v = ctx.call("validate restored", lib.validate, d)
    ctx.check(passed is True, "restored object rejected", str(v)[:300])
