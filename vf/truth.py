"""Is what a message says true of the object it is about?  Each documented code with its parameters is read as a claim
about the files of the object and the inventories in it, and checked against them by separate means."""
import hashlib
import json
import os


class Unknown(Exception):
    """This claim cannot be decided here."""


def flat(block):
    """path -> digests, for a manifest or state."""
    out = {}
    for d, ps in block.items():
        for p in ps:
            out.setdefault(str(p), set()).add(d)
    return out


def joined(value, allowed, seps=(", ", ",")):
    """value is one or more members of allowed, joined."""
    for s in seps:
        if all(p in allowed for p in value.split(s)):
            return True
    rest = value
    if rest in allowed:
        return True
    for a in sorted((a for a in allowed if a and a in rest), key=len, reverse=True):
        rest = rest.replace(a, "")
        if not rest.strip(", "):
            return True
    return not rest.strip(", ")


def lacks(key):
    def claim(self, v):
        return key not in self.inv(v["where"])
    return claim


def usable(inv):
    """Digests of the manifest that can be made use of."""
    n = {"sha512": 128, "sha256": 64}.get(inv["digestAlgorithm"])
    out = {}
    for d, ps in inv["manifest"].items():
        if isinstance(ps, list) and any(isinstance(p, str) for p in ps) and (n is None or len(d) == n and not d.strip("0123456789abcdefABCDEF")):
            out[d] = [p for p in ps if isinstance(p, str)]
    if len({p for ps in out.values() for p in ps}) < sum(map(len, out.values())):
        raise Unknown()       # a path given twice: which digest is meant cannot be said
    return out


def in_sequence(versions):
    """The names are those of versions 1 to n, all in one form."""
    if not isinstance(versions, dict):
        return False
    ks = list(versions)
    return all(k[:1] == "v" and k[1:].isdigit() and k.isascii() for k in ks) and sorted(int(k[1:]) for k in ks) == list(range(1, len(ks) + 1)) and (
        not any(k[1] == "0" for k in ks) or len({len(k) for k in ks}) == 1)


class Claims:
    """Claims about one object in directory d (or, with d None, about the inventory given by name)."""

    def __init__(self, d, inventories=None):
        self.d = d
        self.given = inventories or {}
        self.cache = {}

    E036a, E036b, E036c, E036d, E041a, E041b = lacks("id"), lacks("type"), lacks("digestAlgorithm"), lacks("head"), lacks("manifest"), lacks("versions")

    # ---- reading
    def inv(self, where):
        if where in self.given:
            return self.given[where]
        if self.d is None:
            raise Unknown()
        if where not in self.cache:
            p = os.path.join(self.d, "" if where == "root" else where, "inventory.json")
            try:
                with open(p, encoding="utf-8") as fh:
                    self.cache[where] = json.load(fh)
            except (OSError, ValueError, RecursionError) as e:
                self.cache[where] = e
        v = self.cache[where]
        if not isinstance(v, dict):
            raise Unknown()
        return v

    def by_head(self, head):
        """The earlier inventory whose head is this: normally that of the directory."""
        out = []
        for n in sorted(os.listdir(self.d)):
            if n[:1] == "v" and os.path.isdir(os.path.join(self.d, n)):
                try:
                    i = self.inv(n)
                except Unknown:
                    continue
                if max(i["versions"], key=lambda v: int(v[1:])) == head or i.get("head") == head:
                    out.append(i)
        if not out:
            raise Unknown()
        return out

    def file(self, *parts):
        return os.path.isfile(os.path.join(self.d, *parts))

    def dir(self, *parts):
        return os.path.isdir(os.path.join(self.d, *parts))

    def there(self, *parts):
        return os.path.lexists(os.path.join(self.d, *parts))

    def bytes(self, *parts):
        with open(os.path.join(self.d, *parts), "rb") as fh:
            return fh.read()

    def digest(self, alg, *parts):
        try:
            h = {"blake2b-160": lambda: hashlib.blake2b(digest_size=20), "blake2b-256": lambda: hashlib.blake2b(digest_size=32), "blake2b-384": lambda: hashlib.blake2b(digest_size=48),
                 "blake2b-512": hashlib.blake2b, "md5": hashlib.md5, "sha1": hashlib.sha1, "sha256": hashlib.sha256, "sha512": hashlib.sha512,
                 "sha512/256": lambda: hashlib.new("sha512_256")}[alg]()
        except KeyError as e:
            raise Unknown() from e
        h.update(self.bytes(*parts))
        return h.hexdigest()

    def state(self, where, version):
        return self.inv(where)["versions"][version]["state"]

    def spec(self, where):
        t = self.inv(where)["type"]
        return t[len("https://ocfl.io/"):].split("/")[0]

    # ---- claims
    def E001a(self, v):
        return self.file(v["file"])

    def E001b(self, v):
        return self.dir(v["dir"])

    def E001c(self, v):
        if os.path.islink(os.path.join(self.d, v["entry"])):
            raise Unknown()
        return self.there(v["entry"]) and not self.dir(v["entry"]) and not self.file(v["entry"])

    def E003b(self, v):
        if any(os.path.islink(os.path.join(self.d, n)) for n in os.listdir(self.d)):
            raise Unknown()
        ns = [n for n in os.listdir(self.d) if n.startswith("0=") and self.file(n)]
        return int(v["files"]) == len(ns) and "0=ocfl_object_" + v["using_version"] in ns

    def E003a(self, v):
        return not any(n.startswith("0=") and self.file(n) for n in os.listdir(self.d))

    def E003c(self, v):
        return any(n.startswith("0=") and self.file(n) for n in os.listdir(self.d)) and not any(self.file("0=ocfl_object_" + x) for x in ("1.0", "1.1"))

    def E006(self, v):
        return self.there(v["filename"]) and v["filename"] not in ("0=ocfl_object_1.0", "0=ocfl_object_1.1")

    def E007(self, v):
        return self.file(v["filename"]) and self.bytes(v["filename"]) not in (v["filename"][2:].encode() + b"\n",)

    def E008(self, v):
        return not self.inv(v["where"])["versions"]

    def E009(self, v):
        return not any(k in self.inv(v["where"])["versions"] for k in ["v" + "0" * n + "1" for n in range(12)])

    def E010(self, v):
        return not in_sequence(self.inv(v["where"])["versions"])

    E011 = E010

    def E015(self, v):
        if not self.dir(v["where"]):
            raise Unknown()
        return self.there(v["where"], v["entry"]) and not self.dir(v["where"], v["entry"])

    def E017(self, v):
        c = self.inv(v["where"])["contentDirectory"]
        return not isinstance(c, str) or "/" in c or not c

    def E018(self, v):
        return self.inv(v["where"])["contentDirectory"] in (".", "..")

    def E019(self, v):
        first = sorted((n for n in self.inv(v["where"])["versions"] if self.file(n, "inventory.json")), key=lambda n: int(n[1:]))[0]
        return "contentDirectory" in self.inv(v["where"]) and "contentDirectory" not in self.inv(first)

    def E020(self, v):
        mine, root = (self.inv(w).get("contentDirectory", "content") for w in (v["where"], "root"))
        return (v["version_content_directory"], v["root_content_directory"]) == (mine, root) and mine != root

    def E023a(self, v):
        listed = flat(self.inv(v["where"])["manifest"])
        extra = set()
        for dp, ds, fs in os.walk(self.d):
            extra |= {os.path.relpath(os.path.join(dp, f), self.d) for f in fs + [x for x in ds if os.path.islink(os.path.join(dp, x))]}
        extra = {p for p in extra if p not in listed and p.count("/") > 1}
        return joined(v["extra_files"], extra)

    def E023b(self, v):
        mine = flat(self.inv(v["where"])["manifest"])
        earlier = set()
        for n in os.listdir(self.d):
            if n[:1] == "v" and n[1:].isdigit() and int(n[1:]) < int(v["where"][1:]):
                try:
                    earlier |= set(flat(self.inv(n)["manifest"]))
                except Unknown:
                    pass
        return joined(v["missing_filepaths"], earlier - set(mine))

    def E024(self, v):
        p = v["path"].lstrip("/")
        return p.startswith(v["where"] + "/") and self.dir(p) and not os.listdir(os.path.join(self.d, p))

    def E025a(self, v):
        return v["digest_algorithm"] == str(self.inv(v["where"])["digestAlgorithm"])

    def E025b(self, v):
        return v["digest"] in self.inv(v["where"])["manifest"]

    def E033(self, v):
        if self.d is None:
            raise Unknown()
        try:
            self.inv(v["where"])
        except Unknown:
            return True
        p = os.path.join(self.d, "" if v["where"] == "root" else v["where"], "inventory.json")
        raw = open(p, "rb").read()
        json.loads(raw.decode("utf-8"))
        if b"NaN" in raw or b"Infinity" in raw:
            raise Unknown()
        return False

    def E037b(self, v):
        return v["version_id"] == str(self.inv(v["where"])["id"]) and v["root_id"] == str(self.inv("root")["id"]) and v["version_id"] != v["root_id"]

    def E038a(self, v):
        return v["got"] == str(self.inv(v["where"])["type"]) and v["expected"] != v["got"]

    def E038b(self, v):
        return v["got"] == str(self.inv(v["where"])["type"])

    def E038c(self, v):
        return v["got"] in self.inv(v["where"])["type"] and v["got"] not in ("1.0", "1.1")

    def E038d(self, v):
        return not isinstance(self.inv(v["where"])["type"], str)

    def E040(self, v):
        i = self.inv(v["where"])
        if str(i["head"]) != v["got"] or v["got"] == v["expected"]:
            return False
        return v["expected"] in i["versions"]

    def E041c(self, v):
        return not isinstance(self.inv(v["where"])["manifest"], dict)

    def E042(self, v):
        if not isinstance(self.inv(v["where"])["manifest"], dict):
            return False
        return v["path"] in flat(self.inv(v["where"])["manifest"])
    E042a = E042b = E099 = E100 = E101a = E042

    def E042c(self, v):
        cd = self.inv(v["where"]).get("contentDirectory", "content")
        return self.E042(v) and (v["content_directory"] == str(cd) or v["content_directory"] == "content")

    def E101b(self, v):
        ps = flat(self.inv(v["where"])["manifest"])
        return any(p.startswith(v["path"] + "/") for p in ps)

    def E044(self, v):
        return not isinstance(self.inv(v["where"])["versions"], dict)

    def E046a(self, v):
        return v["version_dir"] in self.inv("root")["versions"] and not self.dir(v["version_dir"])

    def E046b(self, v):
        ks = list(self.inv("root")["versions"])
        if not in_sequence(self.inv("root")["versions"]) or self.inv("root")["digestAlgorithm"] not in ("sha512", "sha256"):
            raise Unknown()       # only versions in sequence are valid ones
        return self.dir(v["dir"]) and v["dir"] not in ks

    def E047(self, v):
        return not isinstance(self.inv(v["where"])["versions"][v["version"]], dict)

    def E048(self, v):
        return "created" not in self.inv(v["where"])["versions"][v["version"]]

    def E048c(self, v):
        return "state" not in self.inv(v["where"])["versions"][v["version"]]

    def has_created(self, v):
        return isinstance(self.inv(v["where"])["versions"][v["version"]]["created"], str)
    E049a = E049b = E049c = has_created

    def E049d(self, v):
        return not self.has_created(v)

    def E050a(self, v):
        i = self.inv(v["where"])
        used = {d for x in i["versions"].values() for d in x["state"]}
        low = {d.lower() for d in usable(i)}
        return joined(v["digests"], {x for d in used if d.lower() not in low for x in (d, d.lower())})

    def E050c(self, v):
        return not isinstance(self.state(v["where"], v["version"]), dict)

    def E050d(self, v):
        return v["digest"] in self.state(v["where"], v["version"])

    def E050e(self, v):
        return not isinstance(self.state(v["where"], v["version"])[v["digest"]], list)

    def E050f(self, v):
        i = self.inv(v["where"])
        st = self.state(v["where"], v["version"])
        return v["digest"] in st and v["digest"] not in usable(i)

    def in_state(self, v):
        return v["path"] in {str(p) for ps in self.state(v["where"], v["version"]).values() if isinstance(ps, (list, str)) for p in ps}
    E052 = E053 = in_state

    def E095a(self, v):
        ps = [p for x in self.state(v["where"], v["version"]).values() for p in x]
        return ps.count(v["path"]) > 1

    def E095b(self, v):
        ps = [p for x in self.state(v["where"], v["version"]).values() for p in x]
        return any(isinstance(p, str) and p.startswith(v["path"] + "/") for p in ps)

    def version(self, v):
        return self.inv(v["where"])["versions"][v["version"]]

    def E054a(self, v):
        return not isinstance(self.version(v)["user"], dict)

    def E054b(self, v):
        return not isinstance(self.version(v)["user"].get("name"), str)

    def E054c(self, v):
        return not isinstance(self.version(v)["user"]["address"], str)

    def E094(self, v):
        return not isinstance(self.version(v)["message"], str)

    def E056a(self, v):
        return not isinstance(self.inv(v["where"])["fixity"], dict)
    E111 = E056a

    def E056b(self, v):
        return v["algorithm"] in self.inv(v["where"])["fixity"]

    def E057a(self, v):
        return not isinstance(self.inv(v["where"])["fixity"][v["algorithm"]], dict)

    def E057b(self, v):
        return v["digest"] in self.inv(v["where"])["fixity"][v["algorithm"]]

    def E057c(self, v):
        return not isinstance(self.inv(v["where"])["fixity"][v["algorithm"]][v["digest"]], list)

    def E057d(self, v):
        i = self.inv(v["where"])
        return v["path"] in map(str, i["fixity"][v["algorithm"]][v["digest"]]) and v["path"] not in {p for ps in usable(i).values() for p in ps}

    def E058a(self, v):
        return not self.file(v["path"])

    def E060(self, v):
        alg = v["inv_digest_file"].rsplit(".", 1)[-1]
        return v["actual"] == self.digest(alg, v["inv_file"]) and v["recorded"].lower().encode() in self.bytes(v["inv_digest_file"]).lower() and v["actual"] != v["recorded"]

    def E064(self, v):
        return self.bytes(v["root_inv_file"]) != self.bytes(v["inv_file"])

    def E066a(self, v):
        root = set(self.inv(v["where"])["versions"])
        return any(not set(p["versions"]) < root for p in self.by_head(v["prior_head"]))

    def E066b(self, v):
        now = set(flat(self.state(v["where"], v["version"])))
        for p in self.by_head(v["prior_head"]):
            then = set(flat(p["versions"][v["version"]]["state"]))
            want = then - now if v["only_in"] == v["prior_head"] else now - then if v["only_in"] == v["where"] else set()
            if want and joined(v["logical_paths"], want):
                return True
        return False

    def content(self, inv, version, path):
        low = {}
        for d, ps in inv["manifest"].items():
            low.setdefault(d.lower(), set()).update(ps)
        out = set()
        for d, ps in inv["versions"][version]["state"].items():
            if path in ps:
                out |= low[d.lower()]
        return out

    def E066c(self, v):
        now = self.content(self.inv(v["where"]), v["version"], v["logical_path"])
        for p in self.by_head(v["prior_head"]):
            then = self.content(p, v["version"], v["logical_path"])
            if then and joined(v["prior_content"], then) and joined(v["current_content"], now) and not then <= now:
                return True
        return False

    def digest_claim(self, v, there, other):
        st = {d.lower(): ps for d, ps in there.items()}
        return v["digest"].lower() in st and joined(v["logical_files"], set(st[v["digest"].lower()])) and v["digest"].lower() not in {d.lower() for d in other}

    def E066d(self, v):
        return any(self.digest_claim(v, self.state(v["where"], v["version"]), p["versions"][v["version"]]["state"]) for p in self.by_head(v["prior_head"]))

    def E066e(self, v):
        return any(self.digest_claim(v, p["versions"][v["version"]]["state"], self.state(v["where"], v["version"])) for p in self.by_head(v["prior_head"]))

    def W011(self, v):
        now = self.inv(v["where"])["versions"][v["version"]].get(v["key"])
        return any(p["versions"][v["version"]].get(v["key"]) != now for p in self.by_head(v["prior_head"]))

    def E067(self, v):
        if os.path.islink(os.path.join(self.d, "extensions", v["entry"])):
            raise Unknown()
        return self.there("extensions", v["entry"]) and not self.dir("extensions", v["entry"])

    def W013(self, v):
        return self.dir("extensions", v["entry"])

    def E092(self, v):
        return not isinstance(self.inv(v["where"])["manifest"][v["digest"]], list)

    def digest_recorded(self, v, block):
        """Every inventory named has this digest, in some letter case, for the file; and the file has the other."""
        ok = v["content_digest"] == self.digest(v["digest_algorithm"], v["content_path"]) and v["content_digest"].lower() != v["digest"].lower()
        for w in v["where"].split(","):
            i = self.inv(w)
            if block == "manifest":
                ok = ok and i["digestAlgorithm"] == v["digest_algorithm"]
                b = i["manifest"]
            else:
                b = i["fixity"][v["digest_algorithm"]]
            ok = ok and any(d.lower() == v["digest"].lower() and v["content_path"] in ps for d, ps in b.items())
        return ok

    def E092a(self, v):
        return self.digest_recorded(v, "manifest")

    def E093a(self, v):
        return self.digest_recorded(v, "fixity")

    def E092b(self, v):
        if v["content_path"] not in flat(self.inv(v["where"])["manifest"]):
            return False
        cd = self.inv("root").get("contentDirectory", "content")
        parts = v["content_path"].split("/")
        return not self.file(v["content_path"]) or len(parts) < 3 or parts[1] != cd

    def E093b(self, v):
        ps = self.inv(v["where"])["fixity"][v["digest_algorithm"]]
        return any(d.lower() == v["digest"].lower() and v["content_path"] in x for d, x in ps.items()) and not self.file(v["content_path"])

    def E096(self, v):
        return sum(d.lower() == v["digest"].lower() for d in self.inv(v["where"])["manifest"]) > 1

    def E097(self, v):
        return sum(d.lower() == v["digest"].lower() for d in self.inv(v["where"])["fixity"][v["algorithm"]]) > 1

    def E103(self, v):
        for w in (v["prev_version_dir"], v["where"]):
            if self.file(w, "inventory.json") and self.inv(w)["type"] not in ("https://ocfl.io/1.0/spec/#inventory", "https://ocfl.io/1.1/spec/#inventory"):
                raise Unknown()       # another message says what is assumed
        prev = self.spec(v["prev_version_dir"]) if self.file(v["prev_version_dir"], "inventory.json") else v["prev_spec_version"]
        mine = self.spec(v["where"]) if self.file(v["where"], "inventory.json") else v["this_spec_version"]
        return (v["this_spec_version"], v["prev_spec_version"]) == (mine, prev) and mine < prev and int(v["prev_version_dir"][1:]) < int(v["where"][1:])

    def E107(self, v):
        i = self.inv(v["where"])
        used = {d.lower() for x in i["versions"].values() for d, ps in x["state"].items() if isinstance(ps, list)}
        if not in_sequence(i["versions"]):
            raise Unknown()
        return joined(v["digests"], {x for d in i["manifest"] if d.lower() not in used for x in (d, d.lower())})

    def W001(self, v):
        return any(k.startswith("v0") for k in self.inv(v["where"])["versions"])

    def W002(self, v):
        return self.dir(v["where"], v["entry"])

    def W003(self, v):
        return self.dir(v["where"])

    def W004(self, v):
        return self.inv(v["where"])["digestAlgorithm"] == "sha256"

    def W005(self, v):
        return v["id"] == self.inv(v["where"])["id"]

    def W007a(self, v):
        return "message" not in self.version(v)

    def W007b(self, v):
        return "user" not in self.version(v)

    def W008(self, v):
        return "address" not in self.version(v)["user"]

    def W009(self, v):
        return isinstance(self.version(v)["user"]["address"], str)

    def W010(self, v):
        return not self.there(v["where"], "inventory.json")


class RootClaims:
    """Claims about the storage root in directory d."""

    def __init__(self, d):
        self.d = d
        self.given = None

    def names(self, path=""):
        return os.listdir(os.path.join(self.d, path.lstrip("/")))

    def decls(self, path=""):
        return [n for n in self.names(path) if n.startswith("0=")]

    def bytes(self, *parts):
        with open(os.path.join(self.d, *parts), "rb") as fh:
            return fh.read()

    def E003d(self, v):
        return len(self.decls(v["path"])) > 1

    def E004a(self, v):
        return "0=ocfl_object_" + v["version"] in self.names(v["path"]) and v["version"] not in ("1.0", "1.1")

    def E004b(self, v):
        return v["declaration"] in self.names(v["path"]) and v["declaration"] not in ("0=ocfl_object_1.0", "0=ocfl_object_1.1")

    def E069a(self, v):
        return not any(os.path.isfile(os.path.join(self.d, n)) for n in self.decls())

    def E069b(self, v):
        return len(self.decls()) > 1

    def E069c(self, v):
        return v["namaste_file"] in self.decls() and v["namaste_file"] not in ("0=ocfl_1.0", "0=ocfl_1.1")

    def E069d(self, v):
        return "0=ocfl_" + v["declared_spec_version"] in self.decls() and v["expected_spec_version"] != v["declared_spec_version"]

    def E069e(self, v):
        return v["namaste_file"] in self.decls() and self.bytes(v["namaste_file"]).decode("utf-8", "replace").strip() != v["namaste_file"][2:]

    def layout(self):
        return json.loads(self.bytes("ocfl_layout.json").decode("utf-8"))

    def E070a(self, v):
        try:
            self.layout()
        except ValueError:
            return True
        return False

    def E070b(self, v):
        return not isinstance(self.layout(), dict)

    def E070c(self, v):
        i = self.layout()
        return not (isinstance(i.get("extension"), str) and isinstance(i.get("description"), str))

    def E071(self, v):
        return self.layout()["extension"] == v["layout_name"]
    E071b = E071

    def E072(self, v):
        return any(os.path.isfile(os.path.join(self.d, v["path"].lstrip("/"), n)) for n in self.names(v["path"])) and not any(n.startswith("0=ocfl_object_") for n in self.names(v["path"]))

    def E073(self, v):
        return not self.names(v["path"])

    def E081(self, v):
        return "0=ocfl_object_" + v["object_version"] in self.names(v["path"]) and "0=ocfl_" + v["root_version"] in self.decls() and v["object_version"] > v["root_version"]

    def E086(self, v):
        p = os.path.join(self.d, "extensions", os.path.basename(v["entry"]))
        return os.path.lexists(p) and not os.path.isdir(p)

    def W901(self, v):
        return os.path.isdir(os.path.join(self.d, "extensions", os.path.basename(v["entry"])))


def judge(claims, code, pairs):
    """True, False, or None when it cannot be decided."""
    f = getattr(claims, code, None)
    if f is None or code in ("inv", "file", "dir", "there", "bytes", "digest", "state", "spec", "version", "names", "decls", "layout", "content"):
        return None
    try:
        return bool(f(dict(pairs)))
    except (Unknown, KeyError, TypeError, ValueError, AttributeError, OSError, IndexError, RecursionError):
        return None
