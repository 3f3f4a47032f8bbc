"""C13: storage layouts map identifiers to safe, distinct, specified paths."""
import json
import os
import posixpath
import re

from ocfl.layout_registry import get_layout
from ocfl.fsw import fsw_openfs

from vf import gen, hostile, lib, oracle
from vf.common import source_dictionary

ID = "C13"
LEVEL = "exploration"
QUICK, THOROUGH = 6000, 150000
MIN_DISTINCT = 500
RULE = ("For every layout name and a random configuration: about thirty identifiers (reserved names, near-collisions differing by case, one character, percent forms, separators, encodings of one another, lengths around the "
        "100-character limit and far beyond, unicode, controls) mapped twice, by two instances and through StorageRoot; compared with independent implementations of extensions 0002 and 0003, and pairwise for safety, "
        "distinctness and non-nesting. Random allowed and forbidden configurations must be accepted or refused as the extensions say, and survive being written and read back. Distinct by (layout, configuration, identifiers).")
ASSUMPTIONS = ["Identifiers holding NUL or lone surrogates may be refused with any exception", "A digest algorithm that the library cannot compute may be refused",
               "tuple-tree paths may nest by design"]

NAMES = {"0002-flat-direct-storage-layout": "0002", "0002": "0002", "flat-direct": "0002",
         "0003-hash-and-id-n-tuple-storage-layout": "0003", "0003": "0003",
         "nnnn-flat-quoted-storage-layout": "quoted", "flat-quoted": "quoted",
         "nnnn-tuple-tree-layout": "tuple", "nnnn-tuple-tree": "tuple", "nnnn-uuid-quadtree": "uuid"}
CANON = {"0002": "0002-flat-direct-storage-layout", "0003": "0003-hash-and-id-n-tuple-storage-layout", "quoted": "nnnn-flat-quoted-storage-layout", "tuple": "nnnn-tuple-tree-layout", "uuid": "nnnn-uuid-quadtree"}
REFUSED = object()


def ref_0002(i):
    """https://ocfl.github.io/extensions/0002-flat-direct-storage-layout.html"""
    if i in ("", ".", "..") or "/" in i:
        return REFUSED
    return i


def ref_0003(i, alg, size, num):
    """https://ocfl.github.io/extensions/0003-hash-and-id-n-tuple-storage-layout.html"""
    if i == "":
        return REFUSED
    dg = oracle.digest(i.encode("utf8"), alg)
    safe = set("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_")
    enc = "".join(c if c in safe else "".join("%%%02x" % b for b in c.encode("utf8")) for c in i)
    if len(enc) > 100:
        enc = enc[:100] + "-" + dg
    return "/".join([dg[k * size:(k + 1) * size] for k in range(num)] + [enc])


def ref_quoted(i):
    """Form encoding: letters, digits and _.-~ stand, a space is +, anything else %XX of its UTF-8."""
    if i in ("", ".", ".."):
        return REFUSED
    safe = set("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.-~")
    return "".join(c if c in safe else "+" if c == " " else "".join("%%%02X" % b for b in c.encode("utf8")) for c in i)


def ref_tuple(i, size):
    """Pairtree cleaning of the identifier, cut in pieces, all of it again as encapsulating directory."""
    if i == "":
        return REFUSED
    enc = ""
    for b in i.encode("utf8"):
        c = chr(b)
        enc += "^%02x" % b if b < 0x21 or b > 0x7e or c in '"*+,<=>?\\^|' else {"/": "=", ":": "+", ".": ","}.get(c, c)
    return "/".join([enc[k:k + size] for k in range(0, len(enc), size)] + [enc])


def identifiers(rng):
    """Identifiers with many near-collisions."""
    out = []
    base = []
    for _ in range(6):
        r = rng.random()
        if r < 0.3:
            base.append(gen.object_id(rng))
        elif r < 0.5:
            base.append("".join(rng.choice("aAbB01 /%.:+-_=,^~@&?#|\\\"'<>*$!()[]{};\u00e9\u6587\U0001f600\n\t") for _ in range(rng.choice([1, 2, 3, 5, 9, 30]))))
        elif r < 0.62:
            n = rng.choice([98, 99, 100, 101, 102, 150, 254, 255, 256, 1000])
            base.append((rng.choice(["a", "x1-_", "\u00e9", "%", "ab/"]) * n)[:n])
        elif r < 0.7:
            base.append("a" * rng.randrange(90, 101) + rng.choice(["/", "%", "\u00e9", ":", "b"]) * rng.randrange(1, 4))
        elif r < 0.8:
            base.append(rng.choice(source_dictionary()[0]))
        elif r < 0.9:
            base.append(rng.choice(["", ".", "..", "...", "/", "//", "/a", "a/", "a//b", "../a", "a/..", "./a", "~", "~root", "-", "--", " ", "extensions", "ocfl_layout.json", "0=ocfl_1.1", "0=ocfl_object_1.1", "CON", "a\0b", "\ud800"]))
        else:
            base.append(rng.choice(hostile.STRINGS)[:3000])
    for b in base:
        out.append(b)
        for _ in range(rng.choice([1, 2, 4])):
            k = rng.randrange(len(b) + 1)
            out.append(rng.choice([b.swapcase(), b.upper(), b.lower(), b + "/", "/" + b, b + " ", " " + b, b.replace("/", "%2F"), b.replace("/", "%2f"), b.replace("/", "="), b.replace(":", "+"), b.replace(".", ","),
                                   b.replace(" ", "+"), b.replace(" ", "%20"), b.replace("%", "%25"), b[:k] + b[k + 1:], b[:k] + rng.choice("a/.%_- ") + b[k:], b + b, b[:100], b.replace("-", "_"), b + "\u0301",
                                   b.replace("\u00e9", "e\u0301"), b.replace("\n", ""), b + "/" + b, b + "." + b, b + "-" + oracle.digest(b.encode("utf8", "replace"), "sha256"), b.replace("+", " ")]))
    return list(dict.fromkeys(out))


def near(name):
    """Names that are not quite the name of the extension."""
    return [name + " ", name.upper(), name[:4], name + "s", name[5:], name.replace("-", "_"), name + "/", [name], "0000" + name[4:]] + [x for x in CANON.values() if x != name]


def uuids(rng):
    out = []
    for _ in range(10):
        h = "%032x" % rng.getrandbits(128)
        u = "-".join([h[:8], h[8:12], h[12:16], h[16:20], h[20:]])
        out.append(u)
        k = rng.randrange(len(u))
        out.append(rng.choice([u.upper(), u[:k] + rng.choice("0123456789abcdefg-") + u[k + 1:], u + "\n", u[:-1], u + "0", " " + u, u.replace("-", ""), "{" + u + "}"]))
    return out


def odd_number(rng):
    return rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 16, 21, 31, 32, 33, 64, 128, -1, -3, None, "3", "", 3.5, [], {}, 10 ** 20])


def config_0003(rng):
    return {"digestAlgorithm": rng.choice(["sha256", "sha512", "md5", "sha1", "sha256", "sha512", "blake2b-512", "", "SHA256", "sha-256", None, 5, [], {}, "nope"]) if rng.random() < 0.6 else rng.choice(["sha256", "sha512", "md5", "sha1"]),
            "tupleSize": odd_number(rng) if rng.random() < 0.5 else rng.randrange(0, 9),
            "numberOfTuples": odd_number(rng) if rng.random() < 0.5 else rng.randrange(0, 9)}


def legal_0003(c):
    """True / False / None (may be refused as unsupported)."""
    a, s, n = c.get("digestAlgorithm"), c.get("tupleSize"), c.get("numberOfTuples")
    if not all(isinstance(x, int) and 0 <= x <= 32 for x in (s, n)):
        return False
    if not isinstance(a, str) or a not in oracle.HEXLEN:
        return False
    if (s == 0) != (n == 0) or s * n > oracle.HEXLEN[a]:
        return False
    return None if a.startswith("blake2b") else True


def case(ctx):
    rng = ctx.rng
    name = rng.choice(sorted(NAMES))
    kind = NAMES[name]
    ctx.note("layout", name)
    lay = ctx.call("get_layout", get_layout, name)
    ctx.check(lay.NAME == CANON[kind], "layout has another name", "%s for %s", lay.NAME, name)
    cfg = None
    if kind == "0003":
        cfg = {"digestAlgorithm": "sha256", "tupleSize": 3, "numberOfTuples": 3}
        if rng.random() < 0.8:
            cfg = config_0003(rng)
            ok = legal_0003(cfg)
    elif kind == "tuple":
        cfg = {"tupleSize": 2}
        if rng.random() < 0.8:
            cfg = {"tupleSize": odd_number(rng)}
            ok = isinstance(cfg["tupleSize"], int) and 2 <= cfg["tupleSize"] <= 6
    elif kind == "uuid":
        cfg = {"prefix": "urn:uuid:"}
        if rng.random() < 0.6:
            cfg = {"prefix": rng.choice(["urn:uuid:", "x", "http://example.org/", "..", "/", "", None, 3, "urn:uuid", " ", "(", "%"])}
            ok = isinstance(cfg["prefix"], str) and cfg["prefix"] != ""
    if cfg is not None and "ok" in locals():
        ctx.note("configuration", json.dumps(cfg, sort_keys=True)[:100], ok)
        full = dict(cfg, extensionName=CANON[kind], other="ignored") if rng.random() < 0.7 else dict(cfg)
        if full.get("extensionName") is None:
            kw = {"require_extension_name": False}
        else:
            kw = {}
        if ok is False:
            ctx.refused("forbidden configuration", lib.LayoutException, lay.check_and_set_layout_params, full, **kw)
            ctx.count("configuration refused")
            # and a storage root is not created with it
            if rng.random() < 0.3:
                root = ctx.path("badroot")
                s = lib.ocfl.StorageRoot(root=root, layout_name=name)
                ctx.refused("storage root with forbidden configuration", lib.StorageRootException, s.initialize, layout_params=json.dumps(cfg))
                ctx.check(not os.path.exists(root), "root created although its configuration was refused")
            lay = get_layout(name)
            cfg = {"0003": {"digestAlgorithm": "sha256", "tupleSize": 3, "numberOfTuples": 3}, "tuple": {"tupleSize": 2}, "uuid": {"prefix": "urn:uuid:"}}[kind]
        else:
            try:
                lay.check_and_set_layout_params(full, **kw)
                ctx.count("configuration accepted")
            except lib.LayoutException as e:
                ctx.check(ok is None, "allowed configuration refused", "%s: %s", cfg, e)
                lay = get_layout(name)
                cfg = {"digestAlgorithm": "sha256", "tupleSize": 3, "numberOfTuples": 3}
    if rng.random() < 0.1 and kind in ("0003", "tuple", "uuid"):
        bad = rng.choice([[], "x", 3, None, {}, {"extensionName": "other"}, {"extensionName": None}, {"extensionName": CANON[kind]}] + [dict(cfg, extensionName=x) for x in near(CANON[kind])])
        ctx.refused("malformed configuration", lib.LayoutException, get_layout(name).check_and_set_layout_params, bad)
    # configuration reported, written and read back
    second = get_layout(name)
    if cfg is not None:
        got = ctx.call("config", lambda: lay.config)
        ctx.check(got == dict(cfg, extensionName=CANON[kind]), "configuration reported differs", "%s set %s", got, cfg)
        fresh = get_layout(name)
        default = {"0003": {"digestAlgorithm": "sha256", "tupleSize": 3, "numberOfTuples": 3}, "tuple": {"tupleSize": 2}, "uuid": {"prefix": "urn:uuid:"}}[kind]
        ctx.check(fresh.config == dict(default, extensionName=CANON[kind]), "configuration of one layout instance shows in another", "%s", fresh.config)
        d = ctx.path("r")
        os.makedirs(d)
        rfs = fsw_openfs(d)
        ctx.call("write_layout_params", lay.write_layout_params, root_fs=rfs)
        with open(os.path.join(d, "extensions", CANON[kind], "config.json"), encoding="utf8") as fh:
            ctx.check(json.load(fh) == dict(cfg, extensionName=CANON[kind]), "configuration file differs from configuration")
        ctx.refused("second configuration file", lib.LayoutException, lay.write_layout_params, root_fs=rfs)
        ctx.call("read_layout_params", second.read_layout_params, root_fs=rfs, params_required=True)
    else:
        ctx.check(lay.config is None, "layout without parameters reports a configuration", "%s", lay.config)
    ids = identifiers(rng)
    if kind == "uuid":
        ids = [cfg["prefix"] + u for u in uuids(rng)] + ids[:6] + ["urn:uuid:" + u for u in uuids(rng)[:4]]
    ids = list(dict.fromkeys(ids))
    viaroot = lib.ocfl.StorageRoot(root=ctx.path("none"), layout_name=name) if (cfg is None or cfg in ({"digestAlgorithm": "sha256", "tupleSize": 3, "numberOfTuples": 3}, {"tupleSize": 2}, {"prefix": "urn:uuid:"})) else None
    paths = {}
    ctx.sig.append(tuple(ids[:4]))
    for i in ids:
        try:
            i.encode("utf8")
            strange = "\0" in i
        except UnicodeEncodeError:
            strange = True
        try:
            p = lay.identifier_to_path(i)
        except lib.LayoutException:
            p = REFUSED
        except Exception as e:  # pylint: disable=broad-except
            ctx.check(strange, "identifier_to_path raised " + type(e).__name__, "%r: %s", i[:200], e)
            continue
        if strange:
            continue
        ctx.count("identifier " + ("refused" if p is REFUSED else "placed"))
        want = None
        if kind == "0002":
            want = ref_0002(i)
        elif kind == "0003":
            want = ref_0003(i, cfg["digestAlgorithm"], cfg["tupleSize"], cfg["numberOfTuples"])
        elif kind == "uuid":
            m = i.startswith(cfg["prefix"]) and re.fullmatch(r"[0-9a-f]{8}-([0-9a-f]{4}-){3}[0-9a-f]{12}", i[len(cfg["prefix"]):])
            h = i[len(cfg["prefix"]):].replace("-", "")
            want = "/".join(h[k:k + 4] for k in range(0, 32, 4)) if m else REFUSED
        elif kind == "quoted":
            want = ref_quoted(i)
        else:
            want = ref_tuple(i, cfg["tupleSize"])
        if want is not None:
            ctx.check((p is REFUSED) == (want is REFUSED), "identifier wrongly " + ("refused" if p is REFUSED else "placed"), "%s %s %r -> %r", name, cfg, i[:200], p if p is not REFUSED else "refused")
            ctx.check(p is REFUSED or p == want, "path differs from the specification of the layout", "%s %s %r -> %r, specified %r", name, cfg, i[:200], p, want)
        else:
            ctx.check(p is not REFUSED, "identifier wrongly refused", "%s %s %r", name, cfg, i[:200])
        if viaroot is not None:
            try:
                q = viaroot.object_path(i)
            except lib.StorageRootException:
                q = REFUSED
            ctx.check(q == p, "storage root gives another path than its layout", "%r: %r, layout %r", i[:200], q, p)
        if p is REFUSED:
            continue
        for who, ob in (("again", lay), ("another instance", second)):
            ctx.check(ctx.call("identifier_to_path", ob.identifier_to_path, i) == p, "path not deterministic: " + who, "%r", i[:200])
        segs = p.split("/") if isinstance(p, str) else [""]
        ctx.check(isinstance(p, str) and p and not p.startswith("/") and all(s not in ("", ".", "..") for s in segs) and posixpath.normpath(p) == p and "\0" not in p, "unsafe path", "%s %r -> %r", name, i[:200], p)
        if kind in ("quoted", "tuple"):
            ctx.check(lay.decode(segs[-1]) == i, "last directory name does not decode to the identifier", "%s %r -> %r", name, i[:200], segs[-1])
        paths.setdefault(p, []).append(i)
    for p, who in paths.items():
        ctx.check(len(who) == 1, "two identifiers share a path", "%s %s -> %s", name, [w[:100] for w in who], p[:200])
    if kind != "tuple":
        for p in paths:
            a = p
            while "/" in a:
                a = a.rsplit("/", 1)[0]
                ctx.check(a not in paths, "path of one identifier lies inside that of another", "%s: %r in %r", name, p[:200], a)
