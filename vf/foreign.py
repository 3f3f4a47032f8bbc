"""Writer of conforming OCFL objects that shares no code with ocfl-py (other people's objects)."""
import json
import os

from . import gen, oracle

REG_EXT = ["0001-digest-algorithms", "0002-flat-direct-storage-layout", "0003-hash-and-id-n-tuple-storage-layout",
           "0004-hashed-n-tuple-storage-layout", "0005-mutable-head"]


def _case(rng, d, mode):
    if mode == "lower":
        return d
    if mode == "upper":
        return d.upper()
    return "".join(c.upper() if rng.random() < 0.5 else c for c in d)


def dump(rng, inv):
    style = rng.randrange(5)
    if style == 0:
        t = json.dumps(inv, sort_keys=True, indent=2)
    elif style == 1:
        t = json.dumps(inv)
    elif style == 2:
        t = json.dumps(inv, ensure_ascii=False, indent=1)
    elif style == 3:
        t = json.dumps(inv, separators=(",", ":"), ensure_ascii=False) + "\n"
    else:
        t = "\n  " + json.dumps(inv, indent="\t", sort_keys=True) + "\n\n"
    return t.encode("utf8")


class Foreign:
    """Description of a generated object (ground truth) and its files."""


# widths of zero-padded version names; the library reads objects of at most five digits but validates any
WIDE = [2, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 30]


def make(rng, tier="quick", nv=None, big=False, features=True, warn=True, spec_mix=True, ident=None, plain=False, max_files=None, simple_paths=False, pads=None, extreme=False):
    """Generate a conforming object.

    Returns Foreign with: id, vdirs, states [{lp: bytes}], metas, invs [dict per version], algs, specs,
    content_dir, files {relpath: bytes} (complete object), dirs [extra empty dirs], spec, features used (list).
    """
    o = Foreign()
    pool = gen.Pool(rng, big)
    pool.extreme = extreme
    used = []
    nv = nv or gen.n_versions(rng, "quick")
    o.id = ident or gen.object_id(rng)
    odd = 0.0 if plain else (0.1 if simple_paths else 0.35)
    pad = None
    if features and rng.random() < 0.2:
        pad = rng.choice(pads or [2, 2, 3, 4, 5])
        if nv > 10 ** (pad - 1) - 1:
            pad = 3
        used.append("padded%d" % pad)
    name = (lambda n: "v%d" % n) if pad is None else (lambda n: "v%0*d" % (pad, n))
    o.vdirs = [name(n) for n in range(1, nv + 1)]
    cdset = features and rng.random() < 0.3
    o.content_dir = rng.choice(["content", "data", "c", "stuff", "v1", "my content", "\u00e9", "content ", " data", ".c", "Content"]) if cdset else "content"
    if cdset:
        used.append("contentDirectory")
    # spec versions and digest algorithms per version
    up = rng.randrange(nv + 1) if spec_mix and rng.random() < 0.25 else (0 if rng.random() < 0.6 else nv)
    o.specs = ["1.0" if k < up else "1.1" for k in range(nv)]
    if len(set(o.specs)) > 1:
        used.append("spec-upgrade")
    r = rng.random()
    if r < 0.65 or not features:
        o.algs = ["sha512"] * nv
    elif r < 0.8:
        o.algs = ["sha256"] * nv
    else:
        o.algs = [rng.choice(["sha512", "sha256"]) for _ in range(nv)]
    if len(set(o.algs)) > 1:
        used.append("mixed-digests")
    case_mode = ["lower"] * nv
    if features and rng.random() < 0.25:
        case_mode = [rng.choice(["lower", "upper", "mixed"]) for _ in range(nv)]
        used.append("digest-case")
    o.states, o.metas = [], []
    content = {}      # content path -> bytes
    stored = {}       # bytes -> [paths]
    st = gen.tree(rng, pool, odd=odd, n=rng.choice([0, 1, 2, 3, 5]) if max_files is None else rng.randrange(1, max_files + 1))
    o.invs = []
    o.manifest_paths = []
    redundancy = rng.choice([0, 0, 0.15, 0.5]) if features else 0
    for k in range(nv):
        if k:
            st = gen.evolve(rng, st, pool, odd)
        o.states.append(st)
        m = gen.meta(rng, complete=not warn)
        o.metas.append(m)
        vpaths = [p for p in content if p.startswith(o.vdirs[k] + "/")]
        for lp in sorted(st):
            data = st[lp]
            if data not in stored or rng.random() < redundancy:
                for _ in range(1 if rng.random() > 0.1 or not features else 2):
                    rel = lp if rng.random() < 0.4 else gen.new_path(rng, vpaths, odd)
                    if gen.conflict(rel, vpaths):
                        rel = gen.new_path(rng, vpaths, odd)
                    vpaths.append(rel)
                    cp = "%s/%s/%s" % (o.vdirs[k], o.content_dir, rel)
                    content[cp] = data
                    stored.setdefault(data, []).append(cp)
        # inventory for this version
        alg, mode = o.algs[k], case_mode[k]
        man, key = {}, {}
        datas = list(stored)
        rng.shuffle(datas)
        for data in datas:
            dg = _case(rng, oracle.digest(data, alg), mode)
            key[data] = dg
            man[dg] = list(stored[data])
            if features:
                rng.shuffle(man[dg])
        inv = {"id": o.id, "type": "https://ocfl.io/%s/spec/#inventory" % o.specs[k], "digestAlgorithm": alg,
               "head": o.vdirs[k], "manifest": man, "versions": {}}
        if cdset:
            inv["contentDirectory"] = o.content_dir
        order = list(range(k + 1))
        if features:
            rng.shuffle(order)
        for j in order:
            b = {"created": o.metas[j]["created"], "state": {}}
            if o.metas[j]["message"] is not None:
                b["message"] = o.metas[j]["message"]
            if o.metas[j]["name"] is not None:
                b["user"] = {"name": o.metas[j]["name"]}
                if o.metas[j]["address"] is not None:
                    b["user"]["address"] = o.metas[j]["address"]
            for lp in sorted(o.states[j]):
                b["state"].setdefault(key[o.states[j][lp]], []).append(lp)
            inv["versions"][o.vdirs[j]] = b
        if features and rng.random() < 0.3:
            fx = {}
            for a in rng.sample(gen.FIXITY, rng.choice([1, 1, 2, 3])):
                blk = {}
                for cp in sorted(content):
                    if rng.random() < 0.7:
                        dg = oracle.digest(content[cp], a)
                        hit = [d for d in blk if d.lower() == dg]
                        dg = hit[0] if hit else _case(rng, dg, mode)
                        blk.setdefault(dg, []).append(cp)
                fx[a] = blk
            inv["fixity"] = fx if rng.random() > 0.1 else {}
            used.append("fixity")
        items = list(inv.items())
        if features:
            rng.shuffle(items)
        o.invs.append(dict(items))
        o.manifest_paths.append(sorted(content))
    o.content = content
    o.missing_inv = set()
    if features and warn and rng.random() < 0.2:
        o.missing_inv = {k for k in range(nv) if rng.random() < 0.5}
        if o.missing_inv:
            used.append("missing-version-inventory")
    o.spec = o.specs[-1]
    files = dict(content)

    def sidecar(raw, alg):
        sep = " " if not features else rng.choice([" ", " ", "  ", "\t", " \t "])
        return (oracle.digest(raw, alg) + sep + "inventory.json" + rng.choice(["\n", "\n", "\n", ""]) if features else
                oracle.digest(raw, alg) + " inventory.json\n").encode()
    raws = [dump(rng, inv) for inv in o.invs]
    for k in range(nv):
        if k not in o.missing_inv:
            files[o.vdirs[k] + "/inventory.json"] = raws[k]
            files[o.vdirs[k] + "/inventory.json." + o.algs[k]] = sidecar(raws[k], o.algs[k])
    files["inventory.json"] = raws[-1]
    files["inventory.json." + o.algs[-1]] = sidecar(raws[-1], o.algs[-1])
    files["0=ocfl_object_" + o.spec] = ("ocfl_object_%s\n" % o.spec).encode()
    dirs = []
    for k in range(nv):
        if not any(f.startswith(o.vdirs[k] + "/") for f in files):
            dirs.append(o.vdirs[k])
        if features and not any(f.startswith(o.vdirs[k] + "/" + o.content_dir + "/") for f in content) and rng.random() < 0.3:
            dirs.append(o.vdirs[k] + "/" + o.content_dir)
            used.append("empty-content-dir")
    o.free_dirs = []        # directories whose content is not covered by the inventory
    if features and rng.random() < 0.15:
        used.append("logs")
        if rng.random() < 0.5:
            files["logs/some log.txt"] = b"log"
            files["logs/d/inventory.json"] = b"not json"
        else:
            dirs.append("logs")
        o.free_dirs.append("logs")
    if features and rng.random() < 0.15:
        used.append("extensions")
        ext = rng.choice(REG_EXT + (["unregistered-ext"] if warn else []))
        if rng.random() < 0.5:
            files["extensions/%s/config.json" % ext] = b"{}"
        else:
            dirs.append("extensions" if rng.random() < 0.3 else "extensions/" + ext)
        o.free_dirs.append("extensions")
    if features and warn and rng.random() < 0.08:
        used.append("extra-version-dir")
        v = rng.choice(o.vdirs)
        x = v + "/extra dir"
        if o.content_dir != "extra dir":
            files[x + "/f"] = b"x"
            o.free_dirs.append(x)
    o.files, o.dirs, o.features = files, dirs, sorted(set(used))
    return o


def write(o, d):
    """Put the object on disk at d."""
    os.makedirs(d, exist_ok=True)
    for rel, data in o.files.items():
        p = os.path.join(d, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as fh:
            fh.write(data)
    for rel in o.dirs:
        os.makedirs(os.path.join(d, rel), exist_ok=True)


def rewrite_inventory(o_dir, inv_path, inv, alg, rng=None):
    """Replace an inventory file and its sidecar consistently."""
    raw = json.dumps(inv, indent=2).encode("utf8") if rng is None else dump(rng, inv)
    with open(os.path.join(o_dir, inv_path), "wb") as fh:
        fh.write(raw)
    with open(os.path.join(o_dir, inv_path + "." + alg), "wb") as fh:
        fh.write((oracle.digest(raw, alg) + " inventory.json\n").encode())
