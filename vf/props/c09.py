"""C09: inventories that break a specification rule are rejected with that rule's code."""
import copy
import json
import os
import shutil

from vf import foreign, gen, lib, oracle
from vf.common import Skip, source_dictionary

ID = "C09"
LEVEL = "exploration"
QUICK, THOROUGH = 5000, 40000
MIN_DISTINCT = 200
RULE = ("Generated conforming inventories (both specification versions, padded names, mixed digest case, fixity). Stream 1 breaks one of 60 rule variants at a random place, in the standalone inventory, in the root "
        "inventory of a whole object, or in an earlier version's inventory with matching sidecar, and requires rejection with that rule's code. Stream 2 applies random structural mutations (replace, delete, rename, "
        "copy any JSON node) and compares the verdict with an independent rule checker, both ways. Distinct by rule, place and specification version.")
ASSUMPTIONS = ["Forms the specification leaves open (empty contentDirectory, empty path lists, lower-case t/z dates, leap seconds) give no verdict."]

JUNK = [None, True, False, 0, 1, -1, 3.5, "", "x", [], {}, ["x"], {"a": 1}, [[]], [None], "v1", [1], {"x": ["y"]}]


def nonstr(rng):
    return rng.choice([None, True, 0, 7, 1.5, [], ["x"], {}, {"name": "x"}])


def nondict(rng):
    return rng.choice([None, True, 0, 7, "x", "", [], ["x"]])


def nonlist(rng):
    return rng.choice([None, True, 0, 7, "x", "", {}, {"a": "b"}])


BAD_DATES = ["", "2018", "2018-01", "2018-01-01", "2018-01-01T01:01Z", "2018-01-01T01:01:01", "2018-13-01T01:01:01Z", "2018-02-30T01:01:01Z", "2018-00-10T01:01:01Z", "2018-01-00T01:01:01Z",
             "2018-01-01T24:01:01Z", "2018-01-01T01:60:01Z", "2018-01-01T01:01:61Z", "2018-1-1T01:01:01Z", "2018-01-01 01:01:01", "01/02/2018", "2018-01-01T01:01:01+25:00", "2018-01-01T01:01:01+0100",
             "2018-01-01T01:01:01+01", "2018-01-01T01:01:01.Z", "2018-01-01T01:01:01ZZ", "yesterday", "20180101T010101Z", "2018-01-01T01:01:01,5Z", "2018-01-01T1:01:01Z", "2018-01-01T01:01:01 Z",
             " 2018-01-01T01:01:01Z", "2018-01-01T01:01:01Z ", "2019-02-29T00:00:00Z", "1900-02-29T00:00:00Z", "2018-01-01T01:01:01+05:60", "2018-01-01T01:01:01--5:00", "02018-01-01T01:01:01Z"]
BAD_LP = [("/a", "E053"), ("a/", "E053"), ("/", "E053"), ("a//b", "E052"), ("./a", "E052"), ("a/./b", "E052"), ("../a", "E052"), ("a/../b", "E052"), ("a/..", "E052"), (".", "E052"), ("..", "E052"),
          ("", "E052"), ("//", "E053"), ("a/.", "E052"), ("/../x", "E053"), ("x/../../y", "E052")]


class Sub:
    """Shuffled views of the inventory used to pick places."""

    def __init__(self, rng, inv):
        self.rng, self.inv = rng, inv

    def version(self):
        return self.rng.choice(sorted(self.inv["versions"]))

    def state_digest(self):
        vs = [v for v in sorted(self.inv["versions"]) if self.inv["versions"][v]["state"]]
        if not vs:
            raise Skip()
        v = self.rng.choice(vs)
        return v, self.rng.choice(sorted(self.inv["versions"][v]["state"]))

    def digest(self):
        if not self.inv["manifest"]:
            raise Skip()
        return self.rng.choice(sorted(self.inv["manifest"]))

    def fixity(self):
        fx = self.inv.get("fixity")
        if not fx or not any(fx.values()):
            alg = self.rng.choice(gen.FIXITY)
            path = self.inv["manifest"][self.digest()][0]
            self.inv["fixity"] = {alg: {"0" * oracle.HEXLEN[alg]: [path]}}
            fx = self.inv["fixity"]
        alg = self.rng.choice(sorted(a for a in fx if fx[a]))
        return alg, self.rng.choice(sorted(fx[alg]))


def rekey(d, old, new):
    """Rename a key in place, keeping the order."""
    items = [(new if k == old else k, v) for k, v in d.items()]
    d.clear()
    d.update(items)


def bad_digest(rng, d):
    r = rng.randrange(10)
    if r == 7:
        return " " + d
    if r == 8:
        return d[:-1] + "\u0660"
    if r == 9:
        return d + rng.choice(["\n", "\r", "\r\n", "\n\n", "\u2028", " "])
    return [d[:-1], d + "0", d[:-1] + "g", "x", "", d[:20] + "-" + d[21:], "0x" + d[2:]][r]


def break_rule(rng, inv, spec):
    """Break one rule of inv in place: (name, codes expected)."""
    s = Sub(rng, inv)
    cd = inv.get("contentDirectory", "content")
    name = rng.choice(RULES)

    def set_(k, v):
        inv[k] = v
    if name.startswith("no ") and name[3:] in ("id", "type", "digestAlgorithm", "head", "manifest", "versions"):
        k = name[3:]
        del inv[k]
        return name, ["E036"] if k not in ("manifest", "versions") else ["E041"]
    if name == "id not text":
        set_("id", nonstr(rng))
        return name, ["E037"]
    if name == "id empty":
        set_("id", "")
        return name, ["E037"]
    if name == "type not text":
        set_("type", nonstr(rng))
        return name, ["E038"]
    if name == "type unknown":
        t = inv["type"]
        set_("type", rng.choice(["", "inventory", t + " ", t[:-1], t.upper(), t.replace("https", "http"), "https://ocfl.io/2.0/spec/#inventory", "https://ocfl.io/1.2/spec/#inventory", "https://ocfl.io/1.0/spec",
                                 "https://ocfl.io/1/spec/#inventory", "https://ocfl.io/1.00/spec/#inventory", "https://ocfl.io/11.1/spec/#inventory", " " + t, "x" + t, "https://ocflxio/1.0/spec/#inventory", t + "/x",
                                 "https://ocfl.io/0.1/spec/#inventory", "https://ocfl.io/1.10/spec/#inventory"]))
        return name, ["E038"]
    if name == "digestAlgorithm bad":
        set_("digestAlgorithm", rng.choice(["md5", "sha1", "SHA512", "sha-512", "blake2b-512", "", "sha384", "sha512 ", None, 512, ["sha512"], {}, "sha512-spec-ex", "sha3"]))
        return name, ["E025", "E026"]
    if name == "head wrong":
        names = sorted(inv["versions"])
        last = inv["head"]
        n = len(names)
        set_("head", rng.choice(["", "v0", "head", "v%d" % (n + 1), "v%07d" % n if last != "v%07d" % n else "v", "V%d" % n, last + " "] + [x for x in names if x != last]))
        return name, ["E040"]
    if name == "head not text":
        set_("head", nonstr(rng))
        return name, ["E040"]
    if name == "contentDirectory slash":
        set_("contentDirectory", rng.choice(["a/b", "/a", "a/", "/", "../x", "content/", nonstr(rng)]))
        return name, ["E017"]
    if name == "contentDirectory dot":
        set_("contentDirectory", rng.choice([".", ".."]))
        return name, ["E018"]
    if name == "manifest not object":
        set_("manifest", nondict(rng))
        return name, ["E041"]
    if name == "versions not object":
        set_("versions", nondict(rng))
        return name, ["E044"]
    if name == "versions empty":
        set_("versions", {})
        return name, ["E008"]
    if name in ("version gap", "version misnamed", "version added"):
        vs = inv["versions"]
        names = sorted(vs, key=lambda v: int(v[1:]))
        if name == "version gap":
            if len(names) < 2:
                raise Skip()
            k = rng.randrange(len(names) - 1)
            del vs[names[k]]
            return name, ["E009", "E010"]
        if name == "version misnamed":
            k = rng.randrange(len(names))
            v = names[k]
            n = int(v[1:])
            new = rng.choice(["V%d" % n, "%d" % n, "version%d" % n, "", v + "x", v + " ", "v%d.0" % n, "v-%d" % n, "v0", "v%d" % (n + len(names) + 1), "v\u0661"]
                             + (["v%03d" % n, "v%d" % n] if len(names) > 1 else []))
            if new in vs or oracle.version_sequence([new if x == v else x for x in names]):
                raise Skip()
            rekey(vs, v, new)
            return name, ["E009", "E010", "E008", "E011", "E046"]
        new = rng.choice(["v0", "head", "V1", "x", "", "v%d" % (len(names) + 2), "v%05d" % (len(names) + 1), "v1.1", names[-1] + "a"])
        if new in vs or oracle.version_sequence(names + [new]):
            raise Skip()
        vs[new] = copy.deepcopy(vs[names[-1]])
        return name, ["E010", "E011"]
    if name == "version not object":
        inv["versions"][s.version()] = nondict(rng)
        return name, ["E047"]
    if name == "no created":
        del inv["versions"][s.version()]["created"]
        return name, ["E048"]
    if name == "created not text":
        inv["versions"][s.version()]["created"] = nonstr(rng)
        return name, ["E049"]
    if name == "created bad":
        v = rng.choice(BAD_DATES)
        if rng.random() < 0.3:
            g = gen.created(rng)
            i = rng.randrange(len(g))
            v = rng.choice([g[:i] + g[i + 1:], g[:i] + rng.choice("x:-T Z+.0123456789") + g[i + 1:], g[:i] + rng.choice("x:-T Z+.") + g[i:]])
            if oracle.created_ok(v) is not False:
                raise Skip()
        inv["versions"][s.version()]["created"] = v
        return name, ["E049"]
    if name == "no state":
        del inv["versions"][s.version()]["state"]
        return name, ["E048"]
    if name == "state not object":
        inv["versions"][s.version()]["state"] = nondict(rng)
        return name, ["E050"]
    if name == "message not text":
        inv["versions"][s.version()]["message"] = nonstr(rng)
        return name, ["E094"]
    if name == "user not object":
        inv["versions"][s.version()]["user"] = nondict(rng)
        return name, ["E054"]
    if name == "user without name":
        inv["versions"][s.version()]["user"] = rng.choice([{}, {"address": "mailto:a@b.c"}, {"Name": "x"}])
        return name, ["E054"]
    if name == "user name not text":
        inv["versions"][s.version()]["user"] = {"name": nonstr(rng), "address": "mailto:a@b.c"}
        return name, ["E054"]
    if name == "user address not text":
        inv["versions"][s.version()]["user"] = {"name": "x", "address": nonstr(rng)}
        return name, ["E054"]
    if name == "state digest malformed":
        v, d = s.state_digest()
        st = inv["versions"][v]["state"]
        new = bad_digest(rng, d)
        if new in st:
            raise Skip()
        rekey(st, d, new)
        return name, ["E050"]
    if name == "state digest unknown":
        v, d = s.state_digest()
        rekey(inv["versions"][v]["state"], d, oracle.digest(rng.randbytes(8), inv["digestAlgorithm"]))
        return name, ["E050"]
    if name == "state digest other case":
        v, d = s.state_digest()
        new = d.swapcase()
        if new == d:
            raise Skip()
        rekey(inv["versions"][v]["state"], d, new)
        return name, ["E050"]
    if name == "state paths not list":
        v, d = s.state_digest()
        inv["versions"][v]["state"][d] = nonlist(rng)
        return name, ["E050", "E051"]
    if name == "logical path not text":
        v, d = s.state_digest()
        ps = inv["versions"][v]["state"][d]
        ps.insert(rng.randrange(len(ps) + 1), nonstr(rng))
        return name, ["E051", "E052"]
    if name == "logical path form":
        v, d = s.state_digest()
        ps = inv["versions"][v]["state"][d]
        p, code = rng.choice(BAD_LP)
        if rng.random() < 0.5:
            ps[rng.randrange(len(ps))] = p
        else:
            ps.append(p)
        return name, [code]
    if name == "logical path twice":
        v, d = s.state_digest()
        st = inv["versions"][v]["state"]
        p = rng.choice(st[d])
        st[rng.choice(sorted(st))].append(p)
        return name, ["E095"]
    if name == "logical path conflict":
        v, d = s.state_digest()
        st = inv["versions"][v]["state"]
        p = rng.choice(st[d])
        opts = [p + "/x", p + "/x/y/z"] + (["/".join(p.split("/")[:rng.randrange(1, p.count("/") + 1)])] if "/" in p else [])
        st[rng.choice(sorted(st))].append(rng.choice(opts))
        return name, ["E095"]
    if name == "manifest digest malformed":
        d = s.digest()
        new = bad_digest(rng, d)
        if new in inv["manifest"]:
            raise Skip()
        rekey(inv["manifest"], d, new)
        return name, ["E025"]
    if name == "manifest paths not list":
        inv["manifest"][s.digest()] = nonlist(rng)
        return name, ["E092", "E041", "E042"]
    if name == "content path not text":
        ps = inv["manifest"][s.digest()]
        ps.insert(rng.randrange(len(ps) + 1), nonstr(rng))
        return name, ["E042", "E092", "E099"]
    if name == "content path form":
        ps = inv["manifest"][s.digest()]
        i = rng.randrange(len(ps))
        p = ps[i]
        v, rest = p.split("/")[0], p.split("/", 2)[2]
        new, code = rng.choice([("/" + p, "E100"), (p + "/", "E100"), ("%s/%s/../%s" % (v, cd, rest), "E099"), ("%s/%s/./%s" % (v, cd, rest), "E099"), ("%s/%s//%s" % (v, cd, rest), "E099"),
                                ("%s/%s/%s/.." % (v, cd, rest), "E099"), ("%s/%s/a/../%s" % (v, cd, rest), "E099"), ("%s/%s/.." % (v, cd), "E099"), ("%s/%s/a//b" % (v, cd), "E099"),
                                ("/", "E100"), ("/etc/passwd", "E100"), ("%s/%s/a/./b" % (v, cd), "E099")])
        if rng.random() < 0.5:
            ps[i] = new
        else:
            ps.append(new)
        return name, [code]
    if name == "content path place":
        ps = inv["manifest"][s.digest()]
        i = rng.randrange(len(ps))
        p = ps[i]
        v, rest = p.split("/")[0], p.split("/", 2)[2]
        n = len(inv["versions"])
        new = rng.choice(["x/" + p, rest if not rest.startswith("v") else "x" + rest, "%s/not-%s/%s" % (v, cd, rest), "%s/%s" % (v, "not-" + cd), "v%d/%s/%s" % (n + 1, cd, rest) if not v.startswith("v0") else "v1/%s/%s" % (cd, rest),
                          "V1/%s/%s" % (cd, rest), "v0/%s/%s" % (cd, rest), "v%06d/%s/%s" % (n, cd, rest) if len(v) != 7 else "w", "%s/%s" % (v, cd), v, "x", "../%s" % p, "extensions/%s/x" % cd,
                          "logs/%s/x" % cd, v + "x/%s/%s" % (cd, rest)])
        ps[i] = new
        return name, ["E042", "E099"]
    if name == "content path twice":
        d = s.digest()
        p = rng.choice(inv["manifest"][d])
        inv["manifest"][rng.choice(sorted(inv["manifest"]))].append(p)
        return name, ["E101"]
    if name == "content path conflict":
        d = s.digest()
        p = rng.choice(inv["manifest"][d])
        parts = p.split("/")
        opts = [p + "/x", p + "/x/y"] + (["/".join(parts[:rng.randrange(3, len(parts))])] if len(parts) > 3 else [])
        inv["manifest"][rng.choice(sorted(inv["manifest"]))].append(rng.choice(opts))
        return name, ["E101"]
    if name == "manifest digest twice":
        d = s.digest()
        new = d.swapcase()
        if new in inv["manifest"]:
            raise Skip()
        p = inv["manifest"][d][0]
        inv["manifest"][new] = [p + "-more"]
        return name, ["E096"]
    if name == "manifest digest unused":
        d = oracle.digest(rng.randbytes(8), inv["digestAlgorithm"])
        v = s.version()
        inv["manifest"][d] = ["%s/%s/unused-%d" % (v, cd, rng.randrange(10 ** 6))]
        return name, ["E107"]
    if name == "fixity not object":
        set_("fixity", nondict(rng))
        return name, ["E111", "E056"] if spec == "1.0" else ["E111"]
    if name == "fixity algorithm unknown":
        a, d = s.fixity()
        rekey(inv["fixity"], a, rng.choice(["MD5", "sha-1", "", "crc32", "sha3", "blake2b", "blake2b-128", a + " "]))
        return name, ["E056"]
    if name == "fixity block not object":
        a, d = s.fixity()
        inv["fixity"][a] = nondict(rng)
        return name, ["E057"]
    if name == "fixity digest malformed":
        a, d = s.fixity()
        new = bad_digest(rng, d)
        if new in inv["fixity"][a]:
            raise Skip()
        rekey(inv["fixity"][a], d, new)
        return name, ["E057"]
    if name == "fixity paths not list":
        a, d = s.fixity()
        inv["fixity"][a][d] = nonlist(rng)
        return name, ["E057"]
    if name == "fixity path unknown":
        a, d = s.fixity()
        ps = inv["fixity"][a][d]
        ps.insert(rng.randrange(len(ps) + 1), rng.choice(["v1/%s/not-there" % cd, "", "/", ps[0] + "x", ps[0].split("/", 2)[2], nonstr(rng)]))
        return name, ["E057"]
    if name == "fixity digest twice":
        a, d = s.fixity()
        new = d.swapcase()
        if new in inv["fixity"][a]:
            raise Skip()
        inv["fixity"][a][new] = list(inv["fixity"][a][d])
        return name, ["E097"]
    raise AssertionError(name)


RULES = ["no id", "no type", "no digestAlgorithm", "no head", "no manifest", "no versions", "id not text", "id empty", "type not text", "type unknown", "digestAlgorithm bad", "head wrong", "head not text",
         "contentDirectory slash", "contentDirectory dot", "manifest not object", "versions not object", "versions empty", "version gap", "version gap", "version misnamed", "version misnamed", "version added", "version not object",
         "no created", "created not text", "created bad", "created bad", "created bad", "no state", "state not object", "message not text", "user not object", "user without name", "user name not text",
         "user address not text", "state digest malformed", "state digest unknown", "state digest other case", "state paths not list", "logical path not text", "logical path form", "logical path form",
         "logical path twice", "logical path conflict", "logical path conflict", "manifest digest malformed", "manifest paths not list", "content path not text", "content path form", "content path form",
         "content path place", "content path place", "content path twice", "content path conflict", "content path conflict", "manifest digest twice", "manifest digest unused", "fixity not object",
         "fixity algorithm unknown", "fixity block not object", "fixity digest malformed", "fixity paths not list", "fixity path unknown", "fixity digest twice"]


def expect(ctx, what, passed, v, codes, detail):
    errs = lib.codes(v, "E")
    ctx.check(passed is False and errs, "broken rule accepted: " + what.split(" @ ")[0], "%s %s", what, detail)
    ctx.check(any(e[:4] in codes for e in errs), "broken rule reported under other codes: " + what.split(" @ ")[0], "%s got %s expected %s %s", what, errs, codes, detail)
    ctx.check(v.log.num_errors >= len(errs), "error count smaller than codes", "%s", errs)


def detail_of(before, after):
    a, b = json.dumps(before, sort_keys=True), json.dumps(after, sort_keys=True)
    i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
    return "...%s ==> %s" % (a[max(0, i - 60):i + 100], b[max(0, i - 10):i + 120])


def by_rule(ctx, o):
    rng = ctx.rng
    done = 0
    d = ctx.path("obj")
    foreign.write(o, d)
    for _ in range(6):
        k = len(o.vdirs) - 1
        place = rng.choice(["dict", "file", "file", "object", "object", "prior"])
        if place == "prior":
            ks = [i for i in range(len(o.vdirs) - 1) if i not in o.missing_inv]
            if not ks:
                continue
            k = rng.choice(ks)
        inv = copy.deepcopy(o.invs[k])
        try:
            name, codes = break_rule(rng, inv, o.specs[k])
        except Skip:
            continue
        if json.dumps(inv, sort_keys=True) == json.dumps(o.invs[k], sort_keys=True):
            continue
        det = detail_of(o.invs[k], inv)
        err, _ = oracle.check_inventory(inv)
        if not err:
            raise AssertionError("oracle sees no error after %s %s" % (name, det))
        what = "%s @ %s" % (name, place)
        alg = o.algs[k]
        if place == "dict":
            keep = copy.deepcopy(inv)
            iv = lib.ocfl.InventoryValidator()
            passed = ctx.call("InventoryValidator " + name, iv.validate, inv)
            expect(ctx, what, passed, iv, codes, det)
            ctx.check(inv == keep, "validation changed the inventory given", name)
        elif place == "file":
            fn = rng.choice(["inventory.json", "other-name.json"])
            sub = ctx.path("inv")
            os.makedirs(sub, exist_ok=True)
            with open(os.path.join(sub, fn), "wb") as fh:
                fh.write(foreign.dump(rng, inv))
            passed, v = ctx.call("validate_inventory " + name, lib.ocfl.Object().validate_inventory, os.path.join(sub, fn))
            expect(ctx, what, passed, v, codes, det)
        else:
            where = o.vdirs[k] + "/"
            keep = {n: open(os.path.join(d, n), "rb").read() for n in [where + "inventory.json", where + "inventory.json." + alg, "inventory.json", "inventory.json." + alg] if os.path.isfile(os.path.join(d, n))}
            if place == "object":
                foreign.rewrite_inventory(d, "inventory.json", inv, alg)
                if k not in o.missing_inv:
                    for n in ("inventory.json", "inventory.json." + alg):
                        shutil.copy(os.path.join(d, n), os.path.join(d, where + n))
            else:
                foreign.rewrite_inventory(d, where + "inventory.json", inv, alg)
            passed, v = ctx.call("validate " + what, lib.validate, d, check_digests=rng.random() < 0.7)
            expect(ctx, what, passed, v, codes, det)
            for n, b in keep.items():
                with open(os.path.join(d, n), "wb") as fh:
                    fh.write(b)
        ctx.sig.append((name, place, o.specs[k]))
        ctx.count("rule: " + name)
        ctx.count("place: " + place)
        done += 1
    if not done:
        raise Skip()


def nodes(x, path=()):
    yield path
    if isinstance(x, dict):
        for k in x:
            yield from nodes(x[k], path + (k,))
    elif isinstance(x, list):
        for i in range(len(x)):
            yield from nodes(x[i], path + (i,))


def at(x, path):
    for k in path:
        x = x[k]
    return x


def mutate(rng, inv):
    """Random structural mutation of a JSON value."""
    inv = copy.deepcopy(inv)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        ps = [p for p in nodes(inv) if p]
        short = [p for p in ps if len(p) <= 2]
        if not ps:
            return inv
        p = rng.choice(rng.choice([ps, ps, short]))
        parent, key = at(inv, p[:-1]), p[-1]
        op = rng.choice(["junk", "copy", "del", "rename", "insert", "string", "wrap"])
        if op == "junk":
            parent[key] = copy.deepcopy(rng.choice(JUNK))
        elif op == "copy":
            parent[key] = copy.deepcopy(at(inv, rng.choice(ps)))
        elif op == "del":
            del parent[key]
        elif op == "rename" and isinstance(parent, dict):
            new = rng.choice([key.upper(), key.lower(), key + "x", key[:-1], rng.choice(source_dictionary()[0]), rng.choice(list(parent)), "v%d" % rng.randrange(4)])
            parent[new] = parent.pop(key)
        elif op == "insert":
            if isinstance(parent, dict):
                parent[rng.choice(["x", "v1", "v2", "fixity", "contentDirectory", "message", "user", rng.choice(source_dictionary()[0])])] = copy.deepcopy(rng.choice(JUNK + [at(inv, rng.choice(ps))]))
            else:
                parent.insert(rng.randrange(len(parent) + 1), copy.deepcopy(rng.choice(JUNK + [at(inv, rng.choice(ps))])))
        elif op == "string" and isinstance(parent[key], str):
            t = parent[key]
            i = rng.randrange(len(t) + 1)
            parent[key] = rng.choice([t[:i], t[i:], t[:i] + rng.choice(["/", ".", "..", "//", "x", "0", "\u00e9", "V", "%"]) + t[i:], t.upper(), t.lower(), t + t, "/" + t, t + "/"])
        else:
            parent[key] = rng.choice([[parent[key]], {"x": parent[key]}, str(parent[key])])
    return inv


def by_mutation(ctx, o):
    rng = ctx.rng
    base = o.invs[-1]
    good = bad = 0
    for _ in range(30):
        inv = mutate(rng, base)
        err, unsure = oracle.check_inventory(inv)
        if unsure:
            continue
        iv = lib.ocfl.InventoryValidator()
        passed = ctx.call("InventoryValidator on mutated inventory", iv.validate, inv)
        if err:
            bad += 1
            ctx.check(passed is False and lib.codes(iv, "E"), "rule-breaking inventory accepted: " + err[0], "%s %s", err[:3], detail_of(base, inv))
        else:
            good += 1
            ctx.check(passed is True, "conforming inventory rejected: " + ",".join(lib.codes(iv, "E")[:2]), "%s %s", iv.log.codes, detail_of(base, inv))
            # through a file too
            fn = ctx.path("inventory.json")
            with open(fn, "wb") as fh:
                fh.write(foreign.dump(rng, inv))
            passed, v = ctx.call("validate_inventory", lib.ocfl.Object().validate_inventory, fn)
            ctx.check(passed is True, "conforming inventory rejected from file", "%s", lib.codes(v))
    ctx.count("mutants breaking a rule", bad)
    ctx.count("mutants still conforming", good)
    ctx.note("mutants", bad, good)


def forced(ctx, o):
    """Forcing a specification version: only inventories of that version pass."""
    fn = ctx.path("inventory.json")
    with open(fn, "wb") as fh:
        fh.write(foreign.dump(ctx.rng, o.invs[-1]))
    for want in ("1.0", "1.1"):
        passed, v = ctx.call("validate_inventory forced", lib.ocfl.Object().validate_inventory, fn, force_spec_version=want)
        if want == o.spec:
            ctx.check(passed is True, "inventory rejected when its own version is forced", "%s", lib.codes(v))
        else:
            ctx.check(passed is False and any(c.startswith("E038") for c in lib.codes(v)), "inventory of another version accepted when forced", "%s %s", want, lib.codes(v))
    d = ctx.path("forced")
    foreign.write(o, d)
    for want in ("1.0", "1.1"):
        v = lib.Validator(force_spec_version=want, check_digests=ctx.rng.random() < 0.5)
        passed = ctx.call("Validator with forced version", v.validate_object, d)
        if want == o.spec:
            mixed = set(o.specs) != {o.spec}
            ctx.check(passed is True or mixed, "object rejected when its own version is forced", "%s", lib.codes(v))
        else:
            ctx.check(passed is False and any(c.startswith("E038") for c in lib.codes(v)), "object of another version accepted when forced", "%s %s", want, lib.codes(v))


def case(ctx):
    rng = ctx.rng
    o = foreign.make(rng, ctx.tier, pads=foreign.WIDE, nv=rng.choice([1, 2, 2, 3, 4, 10, 12]) if rng.random() < 0.5 else None)
    r = rng.random()
    if r < 0.7:
        by_rule(ctx, o)
    else:
        by_mutation(ctx, o)
        forced(ctx, o)
