"""Independent OCFL 1.0/1.1 checker (standard library only; nothing from ocfl-py).

check_object(dir) -> list of "RULE message" strings, empty when conforming.
check_inventory(inv, ...) -> (errors, unsure): rule violations, and whether the
inventory contains something the specification leaves open (then no verdict).
"""
import datetime
import hashlib
import json
import os
import re

SPECS = ("1.0", "1.1")


def hasher(alg):
    if alg in ("md5", "sha1", "sha256", "sha512"):
        return hashlib.new(alg)
    m = re.fullmatch(r"blake2b-(160|256|384|512)", alg)
    if m:
        return hashlib.blake2b(digest_size=int(m.group(1)) // 8)
    return None


def digest(data, alg):
    h = hasher(alg)
    h.update(data)
    return h.hexdigest()


HEXLEN = {"md5": 32, "sha1": 40, "sha256": 64, "sha512": 128, "blake2b-512": 128, "blake2b-384": 96, "blake2b-256": 64, "blake2b-160": 40}


def created_ok(s):
    """RFC3339 date-time, to the second, with a zone. True / False / None (unsure)."""
    m = re.fullmatch(r"(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(\.\d+)?(Z|[+-](\d\d):(\d\d))", s, re.ASCII)
    if not m:
        if re.fullmatch(r"(\d{4})-(\d\d)-(\d\d)[tT ](\d\d):(\d\d):(\d\d)(\.\d+)?([zZ]|[+-](\d\d):(\d\d))", s, re.ASCII):
            return None   # lower case t/z or a space: permitted by RFC3339, unusual
        return False
    try:
        datetime.datetime(int(m[1]), int(m[2]), int(m[3]), int(m[4]), int(m[5]), min(int(m[6]), 59))
    except ValueError:
        return False
    if int(m[6]) == 60:
        return None   # leap second
    if int(m[6]) > 60:
        return False
    if m[9] is not None and (int(m[9]) > 23 or int(m[10]) > 59):
        return False
    return True


def version_sequence(keys):
    """Ordered version names if keys is a valid set of version directory names, else None."""
    keys = list(keys)
    if not keys or any(not isinstance(k, str) or not re.fullmatch(r"v\d+", k, re.ASCII) for k in keys):
        return None
    if "v1" in keys:
        want = ["v%d" % n for n in range(1, len(keys) + 1)]
    else:
        w = {len(k) for k in keys}
        if len(w) != 1:
            return None
        width = w.pop() - 1
        if width < 2:
            return None
        want = ["v%0*d" % (width, n) for n in range(1, len(keys) + 1)]
        if len(want[-1]) != width + 1 or not all(k.startswith("v0") for k in keys):
            return None
    return want if set(want) == set(keys) else None


def path_segments_bad(p):
    if p.startswith("/") or p.endswith("/"):
        return True
    return any(s in ("", ".", "..") for s in p.split("/"))


def ancestor_conflict(paths):
    paths = set(paths)
    for p in paths:
        parts = p.split("/")
        for i in range(1, len(parts)):
            if "/".join(parts[:i]) in paths:
                return True
    return False


def check_inventory(inv):
    """(errors, unsure) for one inventory considered on its own."""
    err, unsure = [], []
    if not isinstance(inv, dict):
        return ["E033 not an object"], unsure
    iid = inv.get("id")
    if "id" not in inv:
        err.append("E036 no id")
    elif not isinstance(iid, str) or iid == "":
        err.append("E037 bad id")
    spec = None
    if "type" not in inv:
        err.append("E036 no type")
    else:
        t = inv["type"]
        for s in SPECS:
            if t == "https://ocfl.io/%s/spec/#inventory" % s:
                spec = s
        if spec is None:
            err.append("E038 bad type")
    alg = inv.get("digestAlgorithm")
    if "digestAlgorithm" not in inv:
        err.append("E036 no digestAlgorithm")
    elif alg not in ("sha512", "sha256") if isinstance(alg, str) else True:
        err.append("E025 bad digestAlgorithm")
        alg = None
    cd = inv.get("contentDirectory", "content")
    if "contentDirectory" in inv:
        if not isinstance(cd, str) or "/" in cd:
            err.append("E017 contentDirectory")
            cd = None
        elif cd in (".", ".."):
            err.append("E018 contentDirectory")
            cd = None
        elif cd == "":
            unsure.append("empty contentDirectory")
            cd = None
    versions = inv.get("versions")
    seq = None
    if "versions" not in inv:
        err.append("E041 no versions")
    elif not isinstance(versions, dict):
        err.append("E044 versions")
    elif not versions:
        err.append("E008 no version")
    else:
        seq = version_sequence(versions.keys())
        if seq is None:
            err.append("E010 version sequence")
    if "head" not in inv:
        err.append("E036 no head")
    elif seq and inv["head"] != seq[-1]:
        err.append("E040 head")
    elif not isinstance(inv["head"], str):
        err.append("E040 head type")
    # manifest
    man = inv.get("manifest")
    files = {}
    keys = {}
    if "manifest" not in inv:
        err.append("E041 no manifest")
    elif not isinstance(man, dict):
        err.append("E041 manifest")
    else:
        for d, ps in man.items():
            if alg and not re.fullmatch("[0-9a-fA-F]{%d}" % HEXLEN[alg], d, re.ASCII):
                err.append("E025 digest format")
            if d.lower() in keys.values():
                err.append("E096 duplicate digest")
            keys[d] = d.lower()
            if not isinstance(ps, list):
                err.append("E092 manifest value")
                continue
            if not ps:
                unsure.append("empty manifest path list")
            for p in ps:
                if not isinstance(p, str):
                    err.append("E092 manifest path type")
                    continue
                if p in files:
                    err.append("E101 duplicate content path")
                files[p] = d
                if p.startswith("/") or p.endswith("/"):
                    err.append("E100 content path slash")
                elif path_segments_bad(p):
                    err.append("E099 content path segment")
                else:
                    parts = p.split("/")
                    if len(parts) < 3 or (cd is not None and parts[1] != cd) or (seq and parts[0] not in seq) or not re.fullmatch(r"v\d+", parts[0], re.ASCII):
                        err.append("E042 content path prefix")
        if ancestor_conflict(files):
            err.append("E101 content path conflict")
    used = set()
    if isinstance(versions, dict):
        for v, block in versions.items():
            if seq is None and not re.fullmatch(r"v\d+", str(v)):
                continue
            if not isinstance(block, dict):
                err.append("E047 version block")
                continue
            if "created" not in block:
                err.append("E048 no created")
            elif not isinstance(block["created"], str):
                err.append("E049 created type")
            else:
                ok = created_ok(block["created"])
                if ok is None:
                    unsure.append("created form")
                elif not ok:
                    err.append("E049 created")
            if "message" in block and not isinstance(block["message"], str):
                err.append("E094 message")
            if "user" in block:
                u = block["user"]
                if not isinstance(u, dict):
                    err.append("E054 user")
                else:
                    if not isinstance(u.get("name"), str):
                        err.append("E054 user name")
                    if "address" in u and not isinstance(u["address"], str):
                        err.append("E054 user address")
            if "state" not in block:
                err.append("E048 no state")
            elif not isinstance(block["state"], dict):
                err.append("E050 state")
            else:
                lps = []
                for d, ps in block["state"].items():
                    if alg and not re.fullmatch("[0-9a-fA-F]{%d}" % HEXLEN[alg], d, re.ASCII):
                        err.append("E050 state digest format")
                    elif d not in keys:
                        err.append("E050 state digest not in manifest")
                    used.add(d.lower())
                    if not isinstance(ps, list):
                        err.append("E050 state value")
                        continue
                    if not ps:
                        unsure.append("empty state path list")
                    for p in ps:
                        if not isinstance(p, str):
                            err.append("E051 logical path type")
                            continue
                        if p.startswith("/") or p.endswith("/"):
                            err.append("E053 logical path slash")
                        elif path_segments_bad(p):
                            err.append("E052 logical path segment")
                        lps.append(p)
                if len(set(lps)) != len(lps):
                    err.append("E095 duplicate logical path")
                if ancestor_conflict(lps):
                    err.append("E095 logical path conflict")
    if isinstance(man, dict) and seq:
        for d, low in keys.items():
            if low not in used and man[d]:
                err.append("E107 manifest digest not used")
    if "fixity" in inv:
        fx = inv["fixity"]
        if not isinstance(fx, dict):
            err.append("E111 fixity")
        else:
            for a, block in fx.items():
                if a in ("sha512-spec-ex", "sha256-spec-ex"):
                    unsure.append("fixity algorithm of the specification's examples")
                    continue
                if a not in HEXLEN:
                    err.append("E056 fixity algorithm")
                    continue
                if not isinstance(block, dict):
                    err.append("E057 fixity block")
                    continue
                seen = set()
                for d, ps in block.items():
                    if not re.fullmatch("[0-9a-fA-F]{%d}" % HEXLEN[a], d, re.ASCII):
                        err.append("E057 fixity digest format")
                        continue
                    if d.lower() in seen:
                        err.append("E097 fixity duplicate digest")
                    seen.add(d.lower())
                    if not isinstance(ps, list):
                        err.append("E057 fixity value")
                        continue
                    for p in ps:
                        if not isinstance(p, str) or p not in files:
                            err.append("E057 fixity path")
    return err, unsure


def _load(path):
    with open(path, "rb") as fh:
        raw = fh.read()
    return raw, json.loads(raw.decode("utf8"))


def _sidecar(dirpath, raw, alg, err, where):
    names = [n for n in os.listdir(dirpath) if n.startswith("inventory.json.")]
    if names != ["inventory.json." + alg]:
        err.append("E058 sidecar files in %s: %s" % (where, sorted(names)))
        return
    with open(os.path.join(dirpath, names[0]), "rb") as fh:
        t = fh.read()
    m = re.fullmatch(rb"([0-9a-fA-F]+)[ \t]+inventory\.json\s*", t)
    if not m:
        err.append("E061 sidecar format in %s" % where)
    elif m.group(1).decode().lower() != digest(raw, alg):
        err.append("E060 sidecar digest in %s" % where)


def check_object(d, check_digests=True):
    """Errors of the OCFL object at d, by an implementation that shares no code with ocfl-py."""
    err = []
    names = sorted(os.listdir(d))
    decl = [n for n in names if n.startswith("0=")]
    spec = None
    if len(decl) != 1 or decl[0] not in ["0=ocfl_object_" + s for s in SPECS]:
        err.append("E003 declaration %s" % decl)
    else:
        spec = decl[0][len("0=ocfl_object_"):]
        with open(os.path.join(d, decl[0]), "rb") as fh:
            if fh.read() != b"ocfl_object_" + spec.encode() + b"\n":
                err.append("E007 declaration content")
    rp = os.path.join(d, "inventory.json")
    if not os.path.isfile(rp):
        return err + ["E063 no root inventory"]
    try:
        raw, inv = _load(rp)
    except (ValueError, RecursionError) as e:
        return err + ["E033 root inventory unreadable %s" % e]
    e, _ = check_inventory(inv)
    err += ["%s (root)" % x for x in e]
    if e:
        return err
    if spec and inv["type"] != "https://ocfl.io/%s/spec/#inventory" % spec:
        err.append("E038 inventory type %s but declaration %s" % (inv["type"], spec))
    alg = inv["digestAlgorithm"]
    _sidecar(d, raw, alg, err, "root")
    vs = version_sequence(inv["versions"])
    cd = inv.get("contentDirectory", "content")
    for n in names:
        p = os.path.join(d, n)
        if os.path.isdir(p):
            if n not in vs and n not in ("extensions", "logs"):
                err.append("E001 unexpected directory %s" % n)
        elif n not in decl and n != "inventory.json" and n != "inventory.json." + alg:
            err.append("E001 unexpected file %s" % n)
    ext = os.path.join(d, "extensions")
    if os.path.isdir(ext):
        for n in os.listdir(ext):
            if not os.path.isdir(os.path.join(ext, n)):
                err.append("E067 file in extensions")
    on_disk = {}
    expected_digests = {}     # file -> set((alg, digest))

    def want(f, a, dg):
        expected_digests.setdefault(f, set()).add((a, dg.lower()))
    root_files = {p: k for k, ps in inv["manifest"].items() for p in ps}
    for p, k in root_files.items():
        want(p, alg, k)
    for a, blk in inv.get("fixity", {}).items():
        for k, ps in blk.items():
            for p in ps:
                want(p, a, k)
    prev_spec = "1.0"
    prior_files = set()
    cd_set_first = None
    for v in vs:
        vd = os.path.join(d, v)
        if not os.path.isdir(vd):
            err.append("E046 no directory %s" % v)
            continue
        vip = os.path.join(vd, "inventory.json")
        valg = None
        if os.path.isfile(vip):
            try:
                vraw, vinv = _load(vip)
            except (ValueError, RecursionError):
                err.append("E033 inventory in %s unreadable" % v)
                continue
            if v == vs[-1]:
                if vraw != raw:
                    err.append("E064 head inventory differs from root")
                vs_k, vspec = vs, inv["type"][16:19]
                valg = alg
            else:
                e, _ = check_inventory(vinv)
                err += ["%s (%s)" % (x, v) for x in e]
                if e:
                    continue
                valg = vinv["digestAlgorithm"]
                vspec = vinv["type"][16:19]
                if vinv["id"] != inv["id"]:
                    err.append("E037 id differs in %s" % v)
                if vinv.get("contentDirectory", "content") != cd:
                    err.append("E020 contentDirectory differs in %s" % v)
                vs_k = vs[:vs.index(v) + 1]
                if version_sequence(vinv["versions"]) != vs_k:
                    err.append("E066 versions in %s inventory" % v)
                    continue
                vfiles = {p: k for k, ps in vinv["manifest"].items() for p in ps}
                for p, k in vfiles.items():
                    want(p, valg, k)
                    if p not in root_files:
                        err.append("E023 %s of %s not in root manifest" % (p, v))
                if prior_files - set(vfiles):
                    err.append("E023 files of earlier inventories missing from %s manifest" % v)
                prior_files |= set(vfiles)
                for a, blk in vinv.get("fixity", {}).items():
                    for k, ps in blk.items():
                        for p in ps:
                            want(p, a, k)
                for w in vs_k:
                    s1 = {lp: k for k, ps in vinv["versions"][w]["state"].items() for lp in ps}
                    s2 = {lp: k for k, ps in inv["versions"][w]["state"].items() for lp in ps}
                    if set(s1) != set(s2):
                        err.append("E066 state of %s differs between %s and root" % (w, v))
                    elif valg == alg and any(s1[x].lower() != s2[x].lower() for x in s1):
                        err.append("E066 content of %s differs between %s and root" % (w, v))
                    elif any(not set(vinv["manifest"][s1[x]]) <= set(inv["manifest"][s2[x]]) for x in s1):
                        err.append("E066 mapping of %s differs between %s and root" % (w, v))
            _sidecar(vd, vraw, valg, err, v)
            if prev_spec > vspec:
                err.append("E103 spec version decreases at %s" % v)
            prev_spec = vspec
            set_here = "contentDirectory" in (inv if v == vs[-1] else vinv)
            if cd_set_first is None:
                cd_set_first = (v == vs[0] and set_here) or v != vs[0]
        elif v == vs[-1] and prev_spec > spec:
            err.append("E103 spec version decreases at %s (root inventory)" % v)
        for n in os.listdir(vd):
            p = os.path.join(vd, n)
            if n == cd:
                if not os.path.isdir(p):
                    err.append("E015 %s/%s is not a directory" % (v, cd))
                    continue
                for dp, dns, fns in os.walk(p):
                    if dp != p and not dns and not fns:
                        err.append("E024 empty directory %s" % os.path.relpath(dp, d))
                    for fn in fns:
                        full = os.path.join(dp, fn)
                        if os.path.islink(full):
                            err.append("E090 link %s" % fn)
                        on_disk[os.path.relpath(full, d)] = full
            elif os.path.isdir(p):
                pass   # W002
            elif valg and n in ("inventory.json", "inventory.json." + valg):
                pass
            else:
                err.append("E015 extra file %s in %s" % (n, v))
    for f in sorted(set(root_files) - set(on_disk)):
        err.append("E092 missing content %s" % f)
    for f in sorted(set(on_disk) - set(root_files)):
        err.append("E023 content file %s not in manifest" % f)
    if check_digests:
        for f, wants in expected_digests.items():
            if f in on_disk:
                with open(on_disk[f], "rb") as fh:
                    data = fh.read()
                for a, dg in wants:
                    if digest(data, a) != dg:
                        err.append("E092/E093 %s digest of %s" % (a, f))
    return err


def reconstruct(d, version, inv=None):
    """{logical path: bytes} of a version of the object at d, using its root (or given) inventory only."""
    if inv is None:
        _, inv = _load(os.path.join(d, "inventory.json"))
    out = {}
    low = {k.lower(): ps for k, ps in inv["manifest"].items()}
    for k, lps in inv["versions"][version]["state"].items():
        with open(os.path.join(d, low[k.lower()][0]), "rb") as fh:
            data = fh.read()
        for lp in lps:
            out[lp] = data
    return out
