"""Generators of hostile bytes, JSON values and directory trees."""
import copy
import errno
import json
import os
import shutil

from . import gen
from .common import source_dictionary


def deep(n, leaf=1, kind=0):
    v = leaf
    for _ in range(n):
        v = [v] if kind == 0 else {"a": v}
    return v


STRINGS = ["", " ", "\n", "\0", "a\0b", "\ud800", "x\udfff", "\u202e", "..", ".", "/", "//", "/etc/passwd", "../../x", "a/../b", "a//b", "a/", "v1", "v0", "v-1", "v01", "v1/content/a", "v\u0661", "v1\n",
           "v" + "9" * 30, "v" + "9" * 5000, "sha512", "sha256", "md5", "SHA512", "shake_128", "blake2b", "blake2b-160", "sha512/256", "sha512-spec-ex", "content", "head", "%s", "%d %s %(x)s", "{}", "{0}",
           "https://ocfl.io/1.0/spec/#inventory", "https://ocfl.io/1.1/spec/#inventory", "https://ocfl.io/2.0/spec/#inventory", "2020-01-01T00:00:00Z", "2020-13-45T99:99:99Z", "0000-00-00T00:00:00Z",
           "9999-12-31T23:59:59-23:59", "0001-01-01T00:00:00+23:59", "2019-02-29T00:00:00Z", "a" * 70000, "0" * 128, "f" * 64, "F" * 32, "mailto:", "http://[", "[::", "http://[::1", "x:y", ":", "http://\u2100"]


def value(rng, depth=0):
    """A JSON value of any kind."""
    r = rng.random()
    if r < 0.35:
        return rng.choice(STRINGS)
    if r < 0.42:
        return rng.choice(source_dictionary()[0])
    if r < 0.55:
        return rng.choice([0, 1, -1, 1.5, 10 ** 20, -0.0, 10 ** 4000, True, False, None, 1e308, float("inf"), float("nan")])
    if r < 0.6:
        return deep(rng.choice([1, 5, 100, 400, 900, 980, 2000, 9000]), rng.choice(["a", 1, {}]), rng.randrange(2))
    if depth > 2 or r < 0.68:
        return rng.choice([[], {}, [[]], [{}], {"": {}}, {"": []}, [None], [0], [""], {"name": 1}, {"name": ""}, {"state": {}}])
    if r < 0.84:
        return [value(rng, depth + 1) for _ in range(rng.choice([1, 1, 2, 3]))]
    return {rng.choice(STRINGS + ["id", "type", "state", "created", "user", "name", "manifest", "versions", "fixity", "message", "address", "head"]): value(rng, depth + 1) for _ in range(rng.choice([1, 2, 3]))}


def nodes(v, path=()):
    """All (path) places inside a JSON value."""
    out = [path]
    if isinstance(v, dict):
        for k in v:
            out += nodes(v[k], path + (k,))
    elif isinstance(v, list):
        for i in range(len(v)):
            out += nodes(v[i], path + (i,))
    return out


def mutate_json(rng, v, n=1):
    """A structurally mutated deep copy of v."""
    try:
        return _mutate_json(rng, v, n)
    except RecursionError:
        return deep(950)


def _mutate_json(rng, v, n):
    v = copy.deepcopy(v)
    for _ in range(n):
        ps = nodes(v)
        top = [p for p in ps if len(p) <= 2]
        p = rng.choice(top if rng.random() < 0.5 else ps)
        if not p:
            if rng.random() < 0.15:
                return value(rng)
            if not isinstance(v, dict):
                continue
            v[rng.choice(["fixity", "contentDirectory", "extra", "id", "head", "digestAlgorithm"])] = value(rng)
            continue
        parent = v
        for k in p[:-1]:
            parent = parent[k]
        k = p[-1]
        op = rng.choice(["set", "set", "set", "del", "key", "dup", "sibling", "text"])
        if op == "set":
            parent[k] = value(rng)
        elif op == "del":
            del parent[k]
        elif op == "key" and isinstance(parent, dict):
            parent[rng.choice(STRINGS + [str(k).upper(), str(k) + "\n", str(k)[:-1]])] = parent.pop(k)
        elif op == "dup":
            if isinstance(parent, list):
                parent.insert(rng.randrange(len(parent) + 1), copy.deepcopy(parent[k]))
            else:
                parent[str(k).swapcase()] = copy.deepcopy(parent[k])
        elif op == "sibling" and len(ps) > 2:
            q = rng.choice(ps)
            x = v
            for y in q:
                x = x[y]
            parent[k] = copy.deepcopy(x)
        elif isinstance(parent[k], str):
            s = parent[k]
            i = rng.randrange(len(s) + 1)
            parent[k] = s[:i] + rng.choice(["/", "\0", "\n", "..", " ", "\ud800", "x", "%", ""]) + s[i + rng.randrange(2):]
    return v


def encode(rng, v):
    """JSON text of v as bytes, in sane and insane encodings."""
    try:
        t = json.dumps(v, indent=rng.choice([None, 2]), ensure_ascii=rng.random() < 0.7)
    except (RecursionError, ValueError):
        t = "[" * 5000
    t2 = t.encode("utf8", "surrogatepass")
    r = rng.random()
    if r < 0.85:
        return t2
    if r < 0.88:
        return b"\xef\xbb\xbf" + t2
    if r < 0.91:
        return t.encode("utf-16", "surrogatepass")
    if r < 0.94:
        return t.encode("latin-1", "replace") + b"\xff\xfe"
    if r < 0.97:
        return t2[:rng.randrange(len(t2) + 1)]
    return t2 + rng.choice([b"}", b"\0", b"{}", b",", b" junk"])


def raw(rng):
    """Arbitrary bytes."""
    r = rng.random()
    if r < 0.2:
        return b""
    if r < 0.5:
        return rng.randbytes(rng.choice([1, 3, 20, 200]))
    if r < 0.6:
        return rng.choice([b"[" * 100000, b'{"a":' * 50000, b"[" * 980 + b"]" * 980, b"9" * 5000, b"-", b"nul", b'"\\ud800"', b"\xff\xfe\0\0", b"NaN", b"{}", b"[]", b'""', b"null", b"0"])
    if r < 0.8:
        return (rng.choice(["0" * 128, "f" * 64, "abc", "", "\u00e9" * 5]) + rng.choice([" ", "  ", "\t", ""]) + rng.choice(["inventory.json", "x", ""]) + rng.choice(["\n", "", "\n\n"])).encode()
    return rng.choice(STRINGS).encode("utf8", "surrogatepass")


NAMES = ["inventory.json", "inventory.json.sha512", "inventory.json.sha256", "inventory.json.", "inventory.json.x-y", "0=ocfl_object_1.0", "0=ocfl_object_1.1", "0=ocfl_object_9.9", "0=ocfl_object_", "0=", "0=x", "0=ocfl_1.0",
         "0=ocfl_1.1", "0=ocfl_1.1\n", "0=ocfl_object_1.1\n", "00=x", "v1", "v2", "v3", "v01", "v0", "v", "vx", "v\u0661", "v1\n", "logs", "extensions", "content", "ocfl_layout.json", "config.json", "README", " ", "a\nb", "\u00e9", "%s", "-"]


def mutate_tree(rng, d):
    """Apply one hostile change somewhere in the directory tree at d. Returns a description."""
    try:
        return _mutate_tree(rng, d)
    except OSError as e:       # a cyclic link or a name that is too long: no change
        if e.errno in (errno.ELOOP, errno.ENAMETOOLONG, errno.ENOENT, errno.ENOTDIR, errno.EISDIR, errno.ENOTEMPTY, errno.EEXIST):
            return "none"
        raise


def _mutate_tree(rng, d):
    dirs, fs = [], []
    for dp, dns, fns in os.walk(d):
        dirs.append(dp)
        fs += [os.path.join(dp, f) for f in fns]
        if len(dirs) > 300:
            break
    dirs.sort()
    fs.sort()
    key = [f for f in fs if os.path.basename(f).startswith(("inventory.json", "0=", "ocfl_layout", "config.json"))]
    op = rng.choice(["json", "json", "json", "json", "raw", "raw", "flip", "cut", "del", "rmdir", "f2d", "d2f", "add", "add", "adddir", "move", "swap", "badname", "link", "big"])
    t = rng.choice(key) if key and rng.random() < 0.8 else (rng.choice(fs) if fs else None)
    rel = lambda p: os.path.relpath(p, d)  # noqa: E731
    if op in ("json", "raw", "flip", "cut", "del", "f2d") and t is None:
        op = "add"
    if op == "json":
        js = [f for f in key if f.endswith(".json")]
        if not js:
            op = "raw"
        else:
            t = rng.choice(js)
            try:
                with open(t, "rb") as fh:
                    v = json.loads(fh.read())
            except (ValueError, RecursionError, OSError):
                v = {}
            try:
                data = encode(rng, mutate_json(rng, v, rng.choice([1, 1, 1, 2, 4])))
            except RecursionError:
                data = b"[" * 990
            put(t, data, rng.random() < 0.6)
            return "json %s" % rel(t)
    if op == "raw" and t is not None:
        put(t, raw(rng), rng.random() < 0.3)
        return "raw %s" % rel(t)
    if op == "flip":
        with open(t, "rb") as fh:
            b = bytearray(fh.read())
        for _ in range(rng.choice([1, 2, 8])):
            if b:
                b[rng.randrange(len(b))] = rng.randrange(256)
        put(t, bytes(b), rng.random() < 0.3)
        return "flip %s" % rel(t)
    if op == "cut":
        with open(t, "rb") as fh:
            b = fh.read()
        put(t, b[:rng.randrange(len(b) + 1)], False)
        return "cut %s" % rel(t)
    if op == "del":
        os.remove(t)
        return "del %s" % rel(t)
    if op == "f2d":
        os.remove(t)
        os.mkdir(t)
        if rng.random() < 0.5:
            put(os.path.join(t, "x"), b"x", False)
        return "file to directory %s" % rel(t)
    if op in ("rmdir", "d2f") and len(dirs) > 1:
        t = rng.choice(dirs[1:])
        shutil.rmtree(t)
        if op == "d2f":
            put(t, raw(rng), False)
        return "%s %s" % (op, rel(t))
    if op in ("move", "swap") and len(fs) > 1:
        a, b = rng.sample(fs, 2)
        if op == "move":
            os.replace(a, b)
        else:
            os.rename(a, a + ".tmp~")
            os.rename(b, a)
            os.rename(a + ".tmp~", b)
        return "%s %s %s" % (op, rel(a), rel(b))
    where = rng.choice(dirs)
    name = rng.choice(NAMES) if rng.random() < 0.7 else gen.segment(rng)
    p = os.path.join(where, name)
    if op == "badname":
        p = os.fsencode(where) + b"/" + rng.choice([b"\xff", b"a\xfe\xfdb", b"0=\xff", b"v1\xff", b"inventory.json.\xff", b"0=ocfl_object_1.1\xff"])
        if not os.path.lexists(p):
            if rng.random() < 0.5:
                os.mkdir(p)
            else:
                put(p, b"x", False)
        return "undecodable name in %s" % rel(where)
    if os.path.lexists(p):
        return "none"
    if op == "link":
        tgt = rng.choice([".", "..", "nowhere", name, os.path.basename(rng.choice(fs)) if fs else "x", rng.choice(dirs)])
        os.symlink(tgt, p)
        return "link %s -> %s" % (rel(p), tgt)
    if op == "big":
        put(p, b"0" * 300000, False)
        return "big %s" % rel(p)
    if op == "adddir" or rng.random() < 0.3:
        os.mkdir(p)
        return "mkdir %s" % rel(p)
    put(p, raw(rng) if rng.random() < 0.6 else name[2:].encode("utf8", "replace") + b"\n", False)
    return "add %s" % rel(p)


def put(p, data, side):
    """Write a file; if side and it is an inventory, keep its sidecars consistent."""
    with open(p, "wb") as fh:
        fh.write(data)
    if side and isinstance(p, str) and p.endswith("inventory.json"):
        import hashlib
        for alg in ("sha512", "sha256"):
            s = p + "." + alg
            if os.path.isfile(s):
                with open(s, "w", encoding="utf8") as fh:
                    fh.write(hashlib.new(alg, data).hexdigest() + " inventory.json\n")
