"""C10: disagreement between the inventories of one object is detected."""
import copy
import json
import os
import shutil

from vf import foreign, gen, lib, oracle
from vf.common import HarnessError, Skip

ID = "C10"
LEVEL = "exploration"
QUICK, THOROUGH = 1500, 30000
MIN_DISTINCT = 200
RULE = ("Conforming objects with at least two versions (independent writer: mixed algorithms, digest letter case, padded names, upgrades, missing inventories) whose inventories are edited in one "
        "place so that each is still valid on its own and carries a matching sidecar, but they disagree. Each disagreement must be reported with an error of its family, with and without content "
        "digest checking; edits of metadata alone must give warning W011 and stay valid; re-encoding digests in another letter case must change nothing. The independent checker must agree about "
        "each edit. Distinct by (edits, features, version edited).")


class Bench:
    """Apply one edit of inventory k, validate, restore."""

    def __init__(self, ctx, o, d):
        self.ctx, self.o, self.d, self.rng = ctx, o, d, ctx.rng
        self.aged = ctx.rng.random() < 0.5
        self.n = len(o.vdirs)
        self.priors = [k for k in range(self.n - 1) if k not in o.missing_inv]

    def put(self, k, inv, alg=None, old_alg=None, only=None):
        o = self.o
        alg = alg or o.algs[k]
        raw = foreign.dump(self.rng, inv)
        side = (oracle.digest(raw, alg) + " inventory.json\n").encode()
        targets = [] if k in o.missing_inv else [o.vdirs[k] + "/"]
        if k == self.n - 1:
            targets.append("")
        for t in targets if only is None else [only]:
            if old_alg and old_alg != alg:
                os.remove(os.path.join(self.d, t + "inventory.json." + old_alg))
            for name, data in (("inventory.json", raw), ("inventory.json." + alg, side)):
                with open(os.path.join(self.d, t + name), "wb") as fh:
                    fh.write(data)

    def restore(self):
        shutil.rmtree(self.d)
        foreign.write(self.o, self.d)

    def judge(self, name, k, families, warn=None, detail=""):
        """families: error codes of which one is needed; empty set: must stay valid."""
        ctx = self.ctx
        bad = oracle.check_object(self.d)
        if bool(bad) != bool(families):
            raise HarnessError("%s: independent checker says %s" % (name, bad[:3]))
        ctx.count("edit: " + name)
        ctx.sig.append((name, "head" if k == self.n - 1 else k, self.o.algs[k] == self.o.algs[-1]))
        if self.aged:
            ctx.count("edit that leaves the times alone")
            lib.age(self.d)
        for kw in ({}, {"check_digests": False}, {"log_warnings": False, "log_errors": False}):
            passed, v = ctx.call("validate after " + name, lib.validate, self.d, **kw)
            errs = lib.codes(v, "E")
            if families:
                ctx.check(passed is False and errs, "undetected disagreement: " + name, "%s in %s of %s kw=%s features=%s", detail, self.o.vdirs[k], self.o.vdirs, kw, self.o.features)
                ctx.check(any(e[:4] in families for e in errs), "disagreement reported under the wrong code: " + name, "%s in %s got %s expected %s", detail, self.o.vdirs[k], errs, families)
            else:
                ctx.check(passed is True and not errs, "harmless difference rejected: " + name, "%s in %s kw=%s %s", detail, self.o.vdirs[k], kw, [v.log.codes[e] for e in errs[:3]])
                w = lib.codes(v, "W")
                if warn:
                    ctx.check(warn in w, "no warning %s for: %s" % (warn, name), "%s in %s got %s", detail, self.o.vdirs[k], w)
                else:
                    ctx.check("W011" not in w, "warning W011 without metadata difference: " + name, "%s", w)


def lps(inv, v):
    return {lp: dg for dg, ps in inv["versions"][v]["state"].items() for lp in ps}


def unlps(inv, v, m):
    st = {}
    for lp in sorted(m):
        st.setdefault(m[lp], []).append(lp)
    inv["versions"][v]["state"] = st


def prune(inv):
    """Drop manifest entries that no state uses, as a valid inventory need not but may (returns False if it changes content seen elsewhere)."""
    used = {dg for v in inv["versions"].values() for dg in v["state"]}
    return all(dg in used for dg in inv["manifest"])


def pick(b):
    """An inventory to edit: any prior, or the head (edits root too) if some prior overlaps."""
    if b.rng.random() < 0.3:
        return b.n - 1
    return b.rng.choice(b.priors)


def version_shared(b, k):
    """A version described by both inventory k and another, other-than-k, inventory that the comparison must see."""
    if k == b.n - 1:
        return b.rng.choice(b.o.vdirs[:b.priors[-1] + 1])
    return b.rng.choice(b.o.vdirs[:k + 1])


def e_id(b):
    k = b.rng.choice(b.priors + [b.n - 1])
    inv = copy.deepcopy(b.o.invs[k])
    inv["id"] = b.rng.choice([inv["id"] + "x", inv["id"][:-1] or "y", inv["id"].swapcase() + "/", "other", inv["id"] + " "])
    b.put(k, inv)
    b.judge("identifier", k, {"E037"}, detail=inv["id"])


def e_content_dir(b):
    """contentDirectory set, unset or changed in one inventory, so that the effective value differs."""
    k = b.rng.choice(b.priors + [b.n - 1])
    inv = copy.deepcopy(b.o.invs[k])
    now = inv.get("contentDirectory", "content")
    alts = [c for c in ["content", "data", "c2", None] if (c or "content") != now]
    new = b.rng.choice(alts)
    if new is None:
        inv.pop("contentDirectory")
    else:
        inv["contentDirectory"] = new
    if oracle.check_inventory(inv)[0]:
        return      # this inventory's own paths no longer fit: not a cross-version matter
    b.put(k, inv)
    b.judge("content directory", k, {"E019", "E020", "E042", "E092", "E093", "E023"}, detail=str(new))


def e_path_renamed(b):
    k = pick(b)
    inv = copy.deepcopy(b.o.invs[k])
    v = version_shared(b, k)
    m = lps(inv, v)
    if not m:
        return
    old = b.rng.choice(sorted(m))
    d, n = os.path.split(old)
    new = os.path.join(d, b.rng.choice([n + "x", "x" + n, n.swapcase() if n.swapcase() != n else n + "y", n + " ", gen.segment(b.rng)]))
    rest = [p for p in m if p != old]
    if gen.conflict(new, rest) or new == old:
        return
    m[new] = m.pop(old)
    unlps(inv, v, m)
    b.put(k, inv)
    b.judge("logical path renamed", k, {"E066"}, detail="%s: %s -> %s" % (v, old, new))


def e_path_dropped(b):
    k = pick(b)
    inv = copy.deepcopy(b.o.invs[k])
    v = version_shared(b, k)
    m = lps(inv, v)
    c = [lp for lp in m if sum(1 for w in inv["versions"] for x, dg in lps(inv, w).items() if dg == m[lp]) > 1]
    if not c:
        return
    del m[b.rng.choice(sorted(c))]
    unlps(inv, v, m)
    b.put(k, inv)
    b.judge("logical path dropped", k, {"E066"}, detail=v)


def e_path_added(b):
    k = pick(b)
    inv = copy.deepcopy(b.o.invs[k])
    v = version_shared(b, k)
    if not inv["manifest"]:
        return
    m = lps(inv, v)
    new = gen.new_path(b.rng, m)
    m[new] = b.rng.choice(sorted(inv["manifest"]))
    unlps(inv, v, m)
    b.put(k, inv)
    b.judge("logical path added", k, {"E066"}, detail="%s: %s" % (v, new))


def e_content_swapped(b):
    """Two logical paths exchange their content in the account of one inventory."""
    k = pick(b)
    inv = copy.deepcopy(b.o.invs[k])
    v = version_shared(b, k)
    m = lps(inv, v)
    pairs = [(x, y) for x in m for y in m if x < y and m[x] != m[y]]
    if not pairs:
        return
    x, y = b.rng.choice(sorted(pairs))
    m[x], m[y] = m[y], m[x]
    unlps(inv, v, m)
    b.put(k, inv)
    b.judge("content of two paths exchanged", k, {"E066"}, detail=v)


def e_content_other(b):
    """One logical path is given other content that the inventory holds."""
    k = pick(b)
    inv = copy.deepcopy(b.o.invs[k])
    v = version_shared(b, k)
    m = lps(inv, v)
    c = [lp for lp in m if sum(1 for w in inv["versions"] for dg in lps(inv, w).values() if dg == m[lp]) > 1 and len(inv["manifest"]) > 1]
    if not c:
        return
    lp = b.rng.choice(sorted(c))
    m[lp] = b.rng.choice([dg for dg in sorted(inv["manifest"]) if dg != m[lp]])
    unlps(inv, v, m)
    b.put(k, inv)
    b.judge("content of one path replaced", k, {"E066"}, detail="%s %s" % (v, lp))


def e_versions_fewer_root(b):
    """Root (and head) inventory describes fewer versions than an earlier one: the object was rolled back badly."""
    o = b.o
    if b.n < 2 or len(b.priors) < 1:
        return
    k = b.priors[-1]
    if k == 0:
        return
    j = b.rng.randrange(k)          # inventory j becomes the root's
    inv = copy.deepcopy(o.invs[j])
    alg = o.algs[j]
    raw = json.dumps(inv).encode()
    side = (oracle.digest(raw, alg) + " inventory.json\n").encode()
    os.remove(os.path.join(b.d, "inventory.json." + o.algs[-1]))
    for name, data in (("inventory.json", raw), ("inventory.json." + alg, side)):
        with open(os.path.join(b.d, name), "wb") as fh:
            fh.write(data)
    for n in ("0=ocfl_object_1.0", "0=ocfl_object_1.1"):
        if os.path.exists(os.path.join(b.d, n)):
            os.remove(os.path.join(b.d, n))
    with open(os.path.join(b.d, "0=ocfl_object_" + o.specs[j]), "w") as fh:
        fh.write("ocfl_object_%s\n" % o.specs[j])
    b.judge("root inventory is an earlier one", j, {"E066", "E046", "E001", "E064", "E023"}, detail=o.vdirs[j])


def e_padding(b):
    """A prior inventory that names its versions in another style (valid on its own where content is empty)."""
    o = b.o
    k = b.rng.choice(b.priors)
    inv = copy.deepcopy(o.invs[k])
    ren = {}
    for i in range(k + 1):
        ren[o.vdirs[i]] = ("v%d" % (i + 1)) if len(o.vdirs[0]) > 2 and o.vdirs[0][1] == "0" else "v%03d" % (i + 1)
    inv["versions"] = {ren[v]: x for v, x in inv["versions"].items()}
    inv["head"] = ren[inv["head"]]
    inv["manifest"] = {dg: [ren[p.split("/", 1)[0]] + "/" + p.split("/", 1)[1] for p in ps] for dg, ps in inv["manifest"].items()}
    inv.pop("fixity", None)
    if oracle.check_inventory(inv)[0]:
        return
    b.put(k, inv)
    b.judge("version names in another style", k, {"E066"}, detail=str(ren))


def e_manifest_drop(b):
    """A later inventory forgets one of several content paths an earlier one lists (the file stays)."""
    o = b.o
    cand = []
    for k in b.priors[1:] + [b.n - 1]:
        prev = [j for j in b.priors if j < k]
        if prev:
            for dg, ps in o.invs[k]["manifest"].items():
                if len(ps) > 1:
                    cand += [(k, dg, p) for p in ps if p in o.manifest_paths[prev[-1]]]
    if not cand:
        return
    k, dg, p = b.rng.choice(sorted(cand))
    inv = copy.deepcopy(o.invs[k])
    inv["manifest"][dg].remove(p)
    for a in inv.get("fixity", {}):
        for x in list(inv["fixity"][a]):
            inv["fixity"][a][x] = [q for q in inv["fixity"][a][x] if q != p]
            if not inv["fixity"][a][x]:
                del inv["fixity"][a][x]
    b.put(k, inv)
    b.judge("later manifest forgets a content path", k, {"E023", "E066", "E092"}, detail="%s in %s" % (p, o.vdirs[k]))


def e_prior_manifest_extra(b):
    """A prior inventory lists a content path that nothing else knows and that does not exist."""
    o = b.o
    k = b.rng.choice(b.priors)
    inv = copy.deepcopy(o.invs[k])
    if not inv["manifest"]:
        return
    v = b.rng.choice(o.vdirs[:k + 1])
    have = [p for p in o.content if p.startswith(v + "/")]
    p = "%s/%s/%s" % (v, o.content_dir, gen.relpath(b.rng))
    if gen.conflict(p, have):
        return
    inv["manifest"][b.rng.choice(sorted(inv["manifest"]))].append(p)
    b.put(k, inv)
    fam = {"E066", "E023", "E092"}
    b.judge("earlier manifest lists a path the root does not", k, fam, detail="%s in %s" % (p, o.vdirs[k]))


def e_prior_manifest_swap(b):
    """A prior inventory attributes content files to the wrong digests (same set of paths)."""
    o = b.o
    k = b.rng.choice(b.priors)
    inv = copy.deepcopy(o.invs[k])
    if len(inv["manifest"]) < 2:
        return
    x, y = b.rng.sample(sorted(inv["manifest"]), 2)
    inv["manifest"][x], inv["manifest"][y] = inv["manifest"][y], inv["manifest"][x]
    b.put(k, inv)
    # without content checking the mapping to content paths is still seen to differ where the state uses it
    bad = oracle.check_object(b.d, check_digests=False)
    if not bad:
        return
    b.judge("earlier manifest maps digests to the wrong files", k, {"E066", "E092"}, detail=o.vdirs[k])


def e_spec_down(b):
    """An earlier inventory declares a later specification than a later one."""
    o = b.o
    cand = [k for k in b.priors if "1.0" in [o.specs[j] for j in b.priors + [b.n - 1] if j > k]]
    if not cand:
        return
    k = b.rng.choice(cand)
    inv = copy.deepcopy(o.invs[k])
    inv["type"] = "https://ocfl.io/1.1/spec/#inventory"
    b.put(k, inv)
    b.judge("specification version decreases", k, {"E103"}, detail="%s of %s" % (o.vdirs[k], o.specs))


def e_head_differs(b):
    """Head version inventory equivalent to the root inventory but not the same bytes."""
    o = b.o
    k = b.n - 1
    if k in o.missing_inv:
        return
    inv = copy.deepcopy(o.invs[k])
    how = b.rng.choice(["format", "metadata", "space", "fixity"])
    raw0 = o.files["inventory.json"]
    if how == "metadata":
        inv["versions"][o.vdirs[b.rng.randrange(b.n)]]["message"] = "changed"
    elif how == "fixity":
        inv.setdefault("fixity", {})["md5"] = {}
    raw = json.dumps(inv, indent=7).encode() if how != "space" else raw0[:-1] + b" " + raw0[-1:]
    if raw == raw0:
        return
    t = o.vdirs[k] + "/"
    if b.rng.random() < 0.4:
        t = ""                     # the root copy is the changed one
    with open(os.path.join(b.d, t + "inventory.json"), "wb") as fh:
        fh.write(raw)
    with open(os.path.join(b.d, t + "inventory.json." + o.algs[k]), "wb") as fh:
        fh.write((oracle.digest(raw, o.algs[k]) + " inventory.json\n").encode())
    b.judge("head version inventory not identical to root", k, {"E064"}, detail=how + (" root" if not t else " version"))


def e_head_same_size(b):
    """Head inventory of the same length, one byte changed within a string."""
    o = b.o
    k = b.n - 1
    if k in o.missing_inv:
        return
    raw0 = o.files["inventory.json"]
    i = raw0.find(b'"created"')
    j = b.rng.choice([x for x in range(i + 9, min(i + 40, len(raw0))) if raw0[x:x + 1].isdigit()] or [0])
    if not j:
        return
    c = raw0[j:j + 1]
    raw = raw0[:j] + (b"0" if c == b"1" else b"1") + raw0[j + 1:]
    t = o.vdirs[k] + "/"
    with open(os.path.join(b.d, t + "inventory.json"), "wb") as fh:
        fh.write(raw)
    with open(os.path.join(b.d, t + "inventory.json." + o.algs[k]), "wb") as fh:
        fh.write((oracle.digest(raw, o.algs[k]) + " inventory.json\n").encode())
    b.judge("head version inventory differs in one byte", k, {"E064"}, detail="at %d" % j)


def w_metadata(b):
    k = pick(b)
    inv = copy.deepcopy(b.o.invs[k])
    v = version_shared(b, k)
    blk = inv["versions"][v]
    what = b.rng.choice(["created", "message", "user", "address", "nomessage", "nouser"])
    old = json.dumps(blk, sort_keys=True)
    if what == "created":
        blk["created"] = gen.created(b.rng)
    elif what == "message":
        blk["message"] = b.rng.choice(["another", (blk.get("message") or "") + " ", ""])
    elif what == "user":
        blk["user"] = {"name": "Someone else", "address": "mailto:x@example.org"}
    elif what == "address":
        blk.setdefault("user", {"name": "N"})["address"] = "mailto:new@example.org"
    elif what == "nomessage":
        blk.pop("message", None)
    else:
        blk.pop("user", None)
    if json.dumps(blk, sort_keys=True) == old:
        return
    b.put(k, inv)
    b.judge("version metadata " + what, k, set(), warn="W011", detail=v)


def w_case(b):
    """One inventory re-encoded with digests in another letter case: no difference at all."""
    k = pick(b)
    inv = copy.deepcopy(b.o.invs[k])
    f = b.rng.choice([str.upper, str.lower])
    inv["manifest"] = {f(dg): ps for dg, ps in inv["manifest"].items()}
    for v in inv["versions"].values():
        v["state"] = {f(dg): ps for dg, ps in v["state"].items()}
    b.put(k, inv)
    b.judge("digest letter case", k, set())


def w_algorithm(b):
    """One inventory re-encoded with the other digest algorithm: no difference at all."""
    o = b.o
    k = b.rng.choice(b.priors)
    if k in o.missing_inv:
        return
    new = "sha256" if o.algs[k] == "sha512" else "sha512"
    inv = copy.deepcopy(o.invs[k])
    ren = {dg: oracle.digest(o.content[ps[0]], new) for dg, ps in inv["manifest"].items()}
    inv["manifest"] = {ren[dg]: ps for dg, ps in inv["manifest"].items()}
    for v in inv["versions"].values():
        v["state"] = {ren[dg]: ps for dg, ps in v["state"].items()}
    inv["digestAlgorithm"] = new
    b.put(k, inv, alg=new, old_alg=o.algs[k])
    b.judge("digest algorithm", k, set())


def w_order(b):
    """Order of keys and of paths changed: no difference at all."""
    k = pick(b)
    inv = copy.deepcopy(b.o.invs[k])
    for v in inv["versions"].values():
        its = list(v["state"].items())
        b.rng.shuffle(its)
        v["state"] = {dg: b.rng.sample(ps, len(ps)) for dg, ps in its}
    inv["manifest"] = {dg: b.rng.sample(ps, len(ps)) for dg, ps in reversed(list(inv["manifest"].items()))}
    b.put(k, inv)
    b.judge("order of entries", k, set())


EDITS = [e_id, e_content_dir, e_path_renamed, e_path_renamed, e_path_dropped, e_path_added, e_content_swapped, e_content_swapped, e_content_other, e_content_other,
         e_versions_fewer_root, e_padding, e_manifest_drop, e_prior_manifest_extra, e_prior_manifest_swap, e_spec_down, e_head_differs, e_head_same_size,
         w_metadata, w_metadata, w_case, w_algorithm, w_order]


def case(ctx):
    rng = ctx.rng
    nv = rng.choice([2, 2, 3, 3, 4, 5, 11])
    o = foreign.make(rng, ctx.tier, pads=foreign.WIDE, nv=nv, simple_paths=rng.random() < 0.5)
    if not set(range(nv - 1)) - o.missing_inv:
        raise Skip()
    d = ctx.path("obj")
    foreign.write(o, d)
    ctx.note("features", ",".join(o.features), nv)
    b = Bench(ctx, o, d)
    for e in rng.sample(EDITS, 12):
        ctx.log(e.__name__)
        e(b)
        b.restore()
