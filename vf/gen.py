"""Generators of names, contents, trees, metadata and histories (all from a seeded rng)."""
import calendar
import os

from .common import source_dictionary

PLAIN = ["a", "b", "c", "file.txt", "data", "x1", "readme", "img.tiff", "foo", "bar", "A", "B", "File.TXT", "z-9", "long_name_with_underscores.ext"]
ODD = [".hidden", "..x", "...", "a b", " lead", "trail ", "a%20b", "%2E", "%", "%41", "a+b", "a&b=c", "q?", "h#1", "semi;colon",
       "c:d", "~tilde", "~", "quote'", 'dq"', "back\\slash", "star*", "br[ack]et", "{curly}", "<lt>", "pipe|", "dollar$", "!bang",
       "@at", "comma,", "eq=", "v1", "v2", "v01", "content", "inventory.json", "inventory.json.sha512", "0=ocfl_object_1.1", "extensions", "logs",
       "__2", "file.txt__2", "a__2", "-dash", "CON", "..", "README.md", ".DS_Store"]
UNI = ["\u00e9", "e\u0301", "\u6587\u4ef6", "\U0001f600", "\u00c5", "A\u030a", "na\u00efve.txt", "\u202eRTL", "\u00a0nbsp", "\u00df", "\u0130", "\u212b", "\u200d"]
CTRL = ["tab\there", "nl\nx", "cr\rx", "\x01", "del\x7f"]
ODD = [s for s in ODD if s != ".."]


def _ok_segment(s):
    return bool(s) and s not in (".", "..") and "/" not in s and "\0" not in s and len(s.encode("utf8", "replace")) <= 80


def segment(rng, odd=0.35):
    """One path segment (never '.', '..' or empty)."""
    r = rng.random()
    if r > odd:
        return rng.choice(PLAIN)
    r = rng.random()
    if r < 0.5:
        return rng.choice(ODD)
    if r < 0.75:
        return rng.choice(UNI)
    if r < 0.79:
        return rng.choice(CTRL)
    if r < 0.9:
        s = [x for x in source_dictionary()[0] if _ok_segment(x)]
        return rng.choice(s) if s else "dict"
    if r < 0.95:
        return rng.choice(PLAIN) + rng.choice(["", "__", "__2", "__3", "%20", "\u00e9", " "]) + rng.choice(PLAIN)
    return "".join(rng.choice("abcXYZ019-_. %") for _ in range(rng.choice([1, 2, 16, 30, 40, 60])) ).strip(".") or "seg"


def conflict(path, used):
    """True if path equals, contains or is under a used file path."""
    for u in used:
        if path == u or path.startswith(u + "/") or u.startswith(path + "/"):
            return True
    return False


def relpath(rng, odd=0.35):
    depth = rng.choice([1, 1, 1, 2, 2, 3, 4]) if rng.random() > 0.03 else rng.choice([7, 12])
    return "/".join(segment(rng, odd) for _ in range(depth))


def new_path(rng, used, odd=0.35):
    for _ in range(50):
        base = sorted(used)
        if base and rng.random() < 0.35:   # cluster under existing directories
            d = os.path.dirname(rng.choice(base))
            p = (d + "/" if d else "") + segment(rng, odd)
        else:
            p = relpath(rng, odd)
        if not conflict(p, used) and len(p.encode("utf8")) < 250:
            return p
    return "u%d" % rng.randrange(10 ** 9)


def size(rng, big=True):
    r = rng.random()
    if r < 0.12:
        return 0
    if r < 0.9 or not big:
        return rng.choice([1, 2, 3, 5, 10, 17, 40, 100, 300])
    ints = [i for i in source_dictionary()[1] if i <= 600000]
    base = rng.choice(ints + [65536, 262144, 131072, 4096, 8192, 524288])
    return max(0, base + rng.choice([-1, 0, 1, 0]))


def content(rng, big=True):
    n = size(rng, big)
    r = rng.random()
    if n == 0:
        return b""
    if r < 0.15:
        return bytes([rng.randrange(256)]) * n
    if r < 0.25:
        return (b"line\r\nother\n\x00\xff" * (n // 8 + 1))[:n]
    if n > 4096:
        blk = rng.randbytes(1024)
        return (blk * (n // 1024 + 1))[:n - 1] + bytes([rng.randrange(256)])
    return rng.randbytes(n)


class Pool:
    """Contents reused within and across versions so that dedupe matters."""

    def __init__(self, rng, big=True):
        self.rng, self.big, self.items = rng, big, []
        self.extreme = False    # next tree made from this pool is one of extreme()

    def pick(self, dup=0.4):
        if self.items and self.rng.random() < dup:
            return self.rng.choice(self.items)
        c = content(self.rng, self.big)
        if self.items and self.rng.random() < 0.1:   # near duplicates: same length, one byte differs
            o = self.rng.choice(self.items)
            if o:
                k = self.rng.randrange(len(o))
                c = o[:k] + bytes([o[k] ^ (1 << self.rng.randrange(8))]) + o[k + 1:]
        self.items.append(c)
        return c


def tree(rng, pool, n=None, odd=0.35):
    """{logical path: bytes} without conflicts."""
    if pool.extreme:
        pool.extreme = False
        return extreme(rng)
    n = rng.choice([0, 1, 1, 2, 3, 4, 6, 9]) if n is None else n
    out = {}
    for _ in range(n):
        p = new_path(rng, out, odd)
        out[p] = pool.pick()
    return out


def extreme(rng):
    """{logical path: bytes} with many, deep, long or repeated things."""
    kind = rng.choice(["wide", "deep", "long", "copies", "dirs"])
    if kind == "wide":
        return {"w/f%03d" % i: b"%d" % i for i in range(rng.choice([65, 130, 257, 300]))}
    if kind == "deep":
        return {"/".join("d%d" % (i % 10) for i in range(n)) + "/f%d" % n: b"deep %d" % n for n in (1, rng.choice([20, 33, 50]), rng.choice([64, 90, 120]))}
    if kind == "long":
        return {"/".join(rng.choice("abc") * 200 for _ in range(n)) + "/f": b"long %d" % n for n in (1, 2, rng.choice([3, 4]))}
    if kind == "copies":
        return {"c%d/%03d" % (i % 3, i): b"same" for i in range(rng.choice([12, 33, 70, 130]))}
    return {"d%03d/f%s" % (i, "x" * (i % 3)): b"%d" % (i // 2) for i in range(rng.choice([30, 70, 130]))}


def evolve(rng, prev, pool, odd=0.35):
    """A next state: mixture of keep/delete/rename/modify/add/swap."""
    out = dict(prev)
    r = rng.random()
    if r < 0.06:
        return {}
    if r < 0.12:
        return dict(prev)
    if r < 0.17:
        return tree(rng, pool, odd=odd)
    for _ in range(rng.choice([1, 2, 2, 3, 5])):
        op = rng.choice(["del", "ren", "mod", "add", "add", "dup", "swap"])
        ks = sorted(out)
        if op == "del" and ks:
            del out[rng.choice(ks)]
        elif op == "ren" and ks:
            k = rng.choice(ks)
            v = out.pop(k)
            out[new_path(rng, out, odd)] = v
        elif op == "mod" and ks:
            out[rng.choice(ks)] = pool.pick(0.3)
        elif op == "dup" and ks:
            out[new_path(rng, out, odd)] = out[rng.choice(ks)]
        elif op == "swap" and len(ks) > 1:
            a, b = rng.sample(ks, 2)
            out[a], out[b] = out[b], out[a]
        else:
            out[new_path(rng, out, odd)] = pool.pick()
    return out


TEXTS = ["Initial import", "", "x", "multi\nline \u00e9 \U0001f600", "quote \" and \\ back", "  spaces  ", "\u6587", "a" * 300, "null", "%s %d", "<b>"]


def created(rng):
    y, mo, d = rng.randrange(1970, 2038), rng.randrange(1, 13), rng.randrange(1, 29)
    if rng.random() < 0.25:
        d = calendar.monthrange(y, mo)[1]
    h, mi, s = rng.randrange(24), rng.randrange(60), rng.randrange(60)
    t = "%04d-%02d-%02dT%02d:%02d:%02d" % (y, mo, d, h, mi, s)
    if rng.random() < 0.25:
        t += "." + "".join(rng.choice("0123456789") for _ in range(rng.choice([1, 2, 3, 6, 9])))
    return t + rng.choice(["Z", "Z", "+00:00", "-05:00", "+05:30", "-11:59", "+14:00", "+23:59"])


def meta(rng, complete=False):
    """Version metadata dict: created always, the rest optional (address only with name)."""
    m = {"created": created(rng), "message": None, "name": None, "address": None}
    if complete or rng.random() < 0.8:
        m["message"] = rng.choice(TEXTS)
    if complete or rng.random() < 0.8:
        m["name"] = rng.choice(["Alice", "Bob \u00e9", "O'Neil \"q\"", "\u6587 \u5b57"])
        if complete or rng.random() < 0.8:
            m["address"] = rng.choice(["mailto:alice@example.org", "https://orcid.org/0000-0000", "not a uri", "info:x"])
    return m


IDS = ["http://example.org/obj", "urn:uuid:6ba7b810-9dad-11d1-80b4-00c04fd430c8", "info:x/y/z", "ark:/12345/bcd987", "plain", "a/b", "../up", "id with spaces",
       "\u00e9\u6587", "x" * 300, "..", ".", "a:b:c", "http://x.org/?q=1&r=%20#f", "nl\nid", "{}", "0=x", "uri:\U0001f600", "\"q\"", "'"]


def object_id(rng):
    if rng.random() < 0.5:
        return rng.choice(IDS)
    return "http://example.org/%x" % rng.randrange(10 ** 12)


def n_versions(rng, tier):
    r = rng.random()
    if r < 0.86:
        return rng.choice([1, 2, 2, 3, 3, 4, 5])
    if r < 0.97:
        return rng.choice([9, 10, 11, 12])
    return rng.choice([13, 20, 21]) if tier == "quick" or r < 0.995 else 101


CONTENT_DIRS = ["content", "content", "content", "data", "stuff", "c", "v1", "Content", "my content", "\u00e9", "...", "inventory", "a%20b", "extensions", "logs", "content ", " content", ".content", "Con.tent-", "v2", "data\t"]
DIGESTS = ["sha512", "sha256"]
FIXITY = ["md5", "sha1", "sha256", "sha512", "blake2b-512", "blake2b-160", "blake2b-256", "blake2b-384"]


def config(rng):
    """A supported configuration of the library's writer."""
    c = {"content_directory": rng.choice(CONTENT_DIRS),
         "digest_algorithm": rng.choice(["sha512", "sha512", "sha256"]),
         "content_path_normalization": rng.choice(["uri", "uri", "md5", None]),
         "spec_version": rng.choice(["1.1", "1.1", "1.0"]),
         "forward_delta": rng.random() < 0.7,
         "dedupe": rng.random() < 0.7,
         "fixity": None}
    if rng.random() < 0.35:
        c["fixity"] = rng.sample(FIXITY, rng.choice([1, 1, 2, 3]))
    return c
