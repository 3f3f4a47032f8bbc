"""C21: the command line tools report the true outcome and do what the library does."""
import json
import os
import re
import shutil
import time

from vf import cli, foreign, gen, lib, oracle
from vf.monitors import read_tree, snap_diff, snapshot, write_tree
from vf.props import c13, c14, c15

ID = "C21"
LEVEL = "exploration"
QUICK, THOROUGH = 1600, 40000
MIN_DISTINCT = 500
RULE = ("Histories of ocfl-object.py (create, build, update, extract, show, validate with random options) with a second object kept in step through the library with the corresponding arguments, and checked independently; refused "
        "commands; ocfl-root.py histories (create, add, list, path, show, validate, validate-object; root by option or environment; quiet); composed roots and objects of known validity through ocfl-validate.py and "
        "ocfl-root.py validate, singly and several paths at once, under all verbosity and checking options; ocfl-sidecar.py over directories, files and missing paths. Exit status, standard output and files are judged. "
        "Most commands run in this process, about 2% as real processes. Distinct by command, options and outcome.")
OBJ = lib.ocfl.Object
SPAWN = 0.02


def tool(ctx, name, args, env=None):
    """Run a tool; check what holds for every run."""
    rng = ctx.rng
    real = rng.random() < SPAWN and not any("\udc80" <= ch <= "\udcff" for a in args for ch in a)
    ctx.log("%s%s %s" % ("process " if real else "", name, args))
    ctx.stats["calls"] += 1
    r = cli.spawn(name, args, env=env, cwd=os.getcwd()) if real else cli.run(name, args, env=env)
    ctx.count("%s %s exit %s" % (name, args[0] if args and not args[0].startswith(("-", "/")) else "", r.status))
    if real:
        ctx.count("run as process")
    ctx.check(r.status in (0, 1, 2), "exit status not understood", "%s", r)
    ctx.check(r.status == 0 or r.text().strip(), "failed without saying anything", "%s %s", args, r)
    ctx.check(r.status != 0 or "Traceback" not in r.err, "success with a traceback", "%s", r)
    quiet = "-q" in args or "--quiet" in args
    loud = {x for x in ("-v", "--verbose", "--debug") if x in args}
    if not loud:
        ctx.check("INFO:" not in r.err and "DEBUG:" not in r.err, "informational messages though not asked for", "%s", r)
        if quiet:
            ctx.check("WARNING:" not in r.err, "warning messages though quiet", "%s", r)
    return r


def ok(ctx, r, mech, *parts):
    ctx.check(r.status == 0, mech + " failed", "%s", r)
    for p in parts:
        ctx.check(p in r.out, mech + ": output lacks what was done", "%r not in %r", p, r.out)


def failed(ctx, r, mech):
    ctx.check(r.status != 0, mech + " reported as success", "%s", r)


def noise(rng):
    return rng.choice([[], [], [], [], ["-v"], ["-q"], ["--debug"], ["--verbose"], ["--quiet"]])


def settings(rng):
    """Library keyword arguments and the options for them."""
    c = gen.config(rng)
    del c["content_directory"]
    args = []
    if c["spec_version"] != "1.1" or rng.random() < 0.3:
        args += [rng.choice(["--spec-version", "--spec"]), c["spec_version"]]
    if c["digest_algorithm"] != "sha512" or rng.random() < 0.3:
        args += ["--digest", c["digest_algorithm"]]
    if c["content_path_normalization"]:
        args += [rng.choice(["--normalization", "--norm"]) + "=" + c["content_path_normalization"]]
    if not c["forward_delta"]:
        args.append("--no-forward-delta")
    if not c["dedupe"]:
        args.append(rng.choice(["--no-dedupe", "--no-dedup"]))
    for f in c["fixity"] or []:
        args += ["--fixity", f]
    return c, args


def meta_args(rng):
    m = gen.meta(rng)
    if m["message"] == "" and rng.random() < 0.5:
        m["message"] = None
    if rng.random() < 0.15:
        m["created"] = None
    return m, ["--%s=%s" % (k, m[k]) for k in ("created", "message", "name", "address") if m[k] is not None]


def same_object(ctx, a, b, m, t0, what):
    """Objects made by tool and library are the same file for file (created time apart if it was the clock's)."""
    ta, tb = read_tree(a), read_tree(b)
    if m is not None and m["created"] is None:
        for t in (ta, tb):
            for p in [p for p in t if re.fullmatch(r"(v\d+/)?inventory\.json(\..*)?", p)]:
                if os.path.basename(p) == "inventory.json":
                    inv = json.loads(t[p])
                    when = oracle.created_ok(inv["versions"][inv["head"]]["created"])
                    ctx.check(when, "created time of the clock is not valid", "%s", inv["versions"][inv["head"]]["created"])
                    if p == "inventory.json":
                        ts = lib.ocfl.w3c_datetime.str_to_datetime(inv["versions"][inv["head"]]["created"]) if hasattr(lib.ocfl, "w3c_datetime") else None
                        ctx.check(ts is None or t0 - 2 <= ts <= time.time() + 2, "created time is not the time of the command")
                    inv["versions"][inv["head"]]["created"] = "x"
                    t[p] = json.dumps(inv, sort_keys=True).encode()
                else:
                    t[p] = b""
    ctx.check(ta == tb, what + " differs from what the library does", "%s", [p for p in set(ta) | set(tb) if ta.get(p) != tb.get(p)][:4])


def object_history(ctx):
    rng = ctx.rng
    d, twin = ctx.path("obj"), ctx.path("twin")
    pool = gen.Pool(rng, False)
    i = gen.object_id(rng)
    if rng.random() < 0.02:
        return skip_option(ctx)
    c, args = settings(rng)
    trees = [gen.tree(rng, pool, odd=0.2)]
    states = []
    t0 = time.time()
    if rng.random() < 0.35:
        for _ in range(rng.choice([0, 1, 2, 3, 2, 10])):
            trees.append(gen.evolve(rng, trees[-1], pool, odd=0.2))
        for k, t in enumerate(trees):
            write_tree(ctx.path("src"), {"v%d/%s" % (k + 1, p): x for p, x in t.items()})
            os.makedirs(ctx.path("src/v%d" % (k + 1)), exist_ok=True)
        metas = [gen.meta(rng) for _ in trees]
        a = ["build", "--objdir", d, "--srcdir", ctx.path("src"), "--id=" + i] + args
        vm = None
        if rng.random() < 0.7:
            inv = {"id": "x", "head": "v1", "versions": {}}
            pad = rng.choice([0, 0, 0, 2, 4]) if len(metas) < 10 else rng.choice([0, 0, 3])
            for k, m in enumerate(metas):
                b = {"created": m["created"]}
                if m["message"] is not None:
                    b["message"] = m["message"]
                if m["name"] is not None:
                    b["user"] = {"name": m["name"]}
                    if m["address"] is not None:
                        b["user"]["address"] = m["address"]
                inv["versions"]["v%0*d" % (pad, k + 1)] = b
            write_tree(ctx.dir, {"metadata.json": json.dumps(inv).encode()})
            a += ["--metadata", ctx.path("metadata.json")]
            vm = {k + 1: lib.vmeta(m) for k, m in enumerate(metas)}
        else:
            metas = None
        dry = rng.random() < 0.3
        if dry:
            r = tool(ctx, "ocfl-object.py", [x for x in a if x not in ("--objdir", d)])
            ok(ctx, r, "dry run of build", "### Inventory for v%d" % len(trees))
            got = json.loads(r.out.split("\n", 1)[1])
            ctx.check(got["id"] == i and set(got["versions"]) == {"v%d" % (k + 1) for k in range(len(trees))}, "inventory printed is not that of the object", "%s", r)
        ctx.check(not os.path.exists(d), "dry run wrote an object")
        r = tool(ctx, "ocfl-object.py", a + noise(rng))
        ok(ctx, r, "build")
        if vm is not None:
            OBJ(identifier=i, **c).build(srcdir=ctx.path("src"), versions_metadata=vm, objdir=twin)
            same_object(ctx, d, twin, None, t0, "object built")
        else:
            shutil.copytree(d, twin)
        for k, v in enumerate(metas or []):
            states.append((trees[k], v))
        if metas is None:
            states = [(t, None) for t in trees]
        ctx.note("build", len(trees), tuple(args))
    else:
        write_tree(ctx.path("src"), trees[0])
        os.makedirs(ctx.path("src"), exist_ok=True)
        m, margs = meta_args(rng)
        a = ["create", "--srcdir", ctx.path("src"), "--id=" + i] + args + margs
        if rng.random() < 0.3:
            r = tool(ctx, "ocfl-object.py", a)
            ok(ctx, r, "dry run of create", "### Inventory for v1")
            got = json.loads(r.out.split("\n", 1)[1])
            ctx.check(sorted(p for ps in got["versions"]["v1"]["state"].values() for p in ps) == sorted(trees[0]), "inventory printed is not that of the object", "%s", r)
            ctx.check(not os.path.exists(d), "dry run wrote an object")
        r = tool(ctx, "ocfl-object.py", a + ["--objdir", d] + noise(rng))
        ok(ctx, r, "create")
        OBJ(identifier=i, **c).create(srcdir=ctx.path("src"), objdir=twin, metadata=lib.vmeta(m))
        same_object(ctx, d, twin, m, t0, "object created")
        states.append((trees[0], m))
        ctx.note("create", len(trees[0]), tuple(args), tuple(x.split("=")[0] for x in margs))
    independent(ctx, d, i, c, states)
    for k in range(rng.choice([0, 1, 1, 2])):
        shutil.rmtree(twin)
        shutil.copytree(d, twin)
        t = gen.evolve(rng, states[-1][0], pool, odd=0.2)
        src = ctx.path("src-u%d" % k)
        write_tree(src, t)
        os.makedirs(src, exist_ok=True)
        c, args = settings(rng)
        m, margs = meta_args(rng)
        t0 = time.time()
        r = tool(ctx, "ocfl-object.py", ["update", "--objdir", d, "--srcdir", src] + args + margs + noise(rng))
        ok(ctx, r, "update", "Updated object %s to v%d\n" % (i, len(states) + 1))
        OBJ(**c).add_version_with_content(objdir=twin, srcdir=src, metadata=lib.vmeta(m))
        same_object(ctx, d, twin, m, t0, "object updated")
        states.append((t, m))
        ctx.note("update", len(t), tuple(args), tuple(x.split("=")[0] for x in margs))
        independent(ctx, d, i, dict(c, spec_version=None), states)
    reading(ctx, d, i, states)
    refusals(ctx, d, i, states)


def independent(ctx, d, i, c, states):
    bad = oracle.check_object(d)
    ctx.check(not bad, "object from command line does not conform", "%s", bad[:3])
    with open(d + "/inventory.json", encoding="utf8") as fh:
        inv = json.load(fh)
    n = len(states)
    t, m = states[-1]
    ctx.check(inv["id"] == i and inv["head"] == "v%d" % n, "object from command line has other identifier or head", "%s %s", inv["id"], inv["head"])
    ctx.check(inv["digestAlgorithm"] == c["digest_algorithm"], "option has no effect: --digest", "%s, given %s", inv["digestAlgorithm"], c["digest_algorithm"])
    if c["spec_version"]:
        ctx.check(os.path.exists(d + "/0=ocfl_object_" + c["spec_version"]), "option has no effect: --spec-version", "%s", sorted(os.listdir(d)))
    for k, (tk, mk) in enumerate(states):
        v = "v%d" % (k + 1)
        got = oracle.reconstruct(d, v)
        ctx.check(got == tk, "version from command line has other files", "%s: %s expected %s", v, sorted(got), sorted(tk))
        if mk is not None:
            b = inv["versions"][v]
            gm = {"created": b["created"] if mk["created"] else None, "message": b.get("message"), "name": b.get("user", {}).get("name"), "address": b.get("user", {}).get("address")}
            ctx.check(gm == mk, "version from command line has other metadata", "%s: %s expected %s", v, gm, mk)
    paths = [p for ps in inv["manifest"].values() for p in ps if p.startswith("v%d/" % n)]
    if n == 1:
        want = len(set(t.values())) if c["dedupe"] else len(t)
        ctx.check(len(paths) == want, "option has no effect: --no-dedupe", "%d content files, expected %d", len(paths), want)
    if c["content_path_normalization"] == "md5":
        ctx.check(all(re.fullmatch(r"v\d+/content/[0-9a-f]{16}(__\d+)?", p) for p in paths), "option has no effect: --normalization", "%s", paths)
    want_f = set(c["fixity"] or [])
    if n == 1:
        ctx.check(set(inv.get("fixity", {})) == want_f, "option has no effect: --fixity", "%s expected %s", sorted(inv.get("fixity", {})), sorted(want_f))


def skip_option(ctx):
    """--skip is offered as "directories and files to ignore"."""
    rng = ctx.rng
    write_tree(ctx.path("src"), {"keep.txt": b"k", "ignored.txt": b"i"})
    r = tool(ctx, "ocfl-object.py", ["create", "--srcdir", ctx.path("src"), "--id=x", "--objdir", ctx.path("obj"), "--skip", "ignored.txt"])
    ok(ctx, r, "create")
    ctx.note("skip", rng.random() < 0)
    ctx.check(set(oracle.reconstruct(ctx.path("obj"), "v1")) == {"keep.txt"}, "option has no effect: --skip", "files given with --skip are added to the object")


def show_lines(text):
    """[(level, name, note)] of a printed tree."""
    out = []
    for line in text.split("\n"):
        m = re.match(r"((?:│   |    )?)(?:├── |└── )(.*)$", line, re.S)
        if m:
            out.append((1 if m.group(1) else 0, m.group(2)))
    return out


def want_show(d, spec, cdir):
    """What a tree must list: {top entry: note, (version, entry): note}."""
    out = []
    side = 0
    for e in sorted(os.listdir(d)):
        note = e + " "
        sub = []
        if re.match(r"v\d+$", e):
            vs = 0
            for x in sorted(os.listdir(os.path.join(d, e))):
                xn = x + " "
                full = os.path.join(d, e, x)
                if x == "inventory.json":
                    pass
                elif x.startswith("inventory.json."):
                    vs += 1
                    if vs > 1:
                        xn += "<--- multiple inventory digests?"
                elif x == cdir:
                    xn += "(%d files)" % sum(len(f) for _, _, f in os.walk(full))
                else:
                    xn += "<--- ???"
                sub.append((1, xn))
        elif e in ("inventory.json", "0=ocfl_object_" + spec):
            pass
        elif e.startswith("inventory.json."):
            side += 1
            if side > 1:
                note += "<--- multiple inventory digests?"
        else:
            note += "<--- ???"
        out.append((0, note))
        out += sub
    return out


def reading(ctx, d, i, states):
    rng = ctx.rng
    n = len(states)
    before = snapshot(d)
    for k in rng.sample(["extract", "extract", "file", "show", "validate", "validate tool"], 3):
        if k == "extract":
            v = rng.randrange(n) + 1
            dst = ctx.path("dst")
            a = ["extract", "--objdir", d, rng.choice(["--dstdir", "--dst"]), dst]
            if v != n or rng.random() < 0.6:
                a += ["--objver", "v%d" % v if v != n or rng.random() < 0.5 else "head"]
            r = tool(ctx, "ocfl-object.py", a + noise(rng))
            ok(ctx, r, "extract", "Extracted content for v%d in %s\n" % (v, dst))
            got = read_tree(dst)
            ctx.check(got == states[v - 1][0], "extract gave other files", "%s expected %s", sorted(got), sorted(states[v - 1][0]))
            if got and rng.random() < 0.3:
                s = snapshot(dst)
                failed(ctx, tool(ctx, "ocfl-object.py", a), "extract into existing directory")
                ctx.check(snapshot(dst) == s, "failed extract changed the destination")
            shutil.rmtree(dst)
        elif k == "file":
            v = rng.randrange(n) + 1
            dst = ctx.path("dst")
            if not states[v - 1][0]:
                continue
            lp = rng.choice(sorted(states[v - 1][0]))
            r = tool(ctx, "ocfl-object.py", ["extract", "--objdir", d, "--dstdir", dst, "--objver", "v%d" % v, rng.choice(["--logical-path=", "--path="]) + lp] + noise(rng))
            ok(ctx, r, "extract of file", "Extracted %s in v%d to %s\n" % (lp, v, dst))
            got = read_tree(dst)
            ctx.check(got == {os.path.basename(lp): states[v - 1][0][lp]}, "extract of file gave other files", "%s for %s", sorted(got), lp)
            shutil.rmtree(dst)
        elif k == "show":
            r = tool(ctx, "ocfl-object.py", ["show", "--objdir", d] + noise(rng))
            ok(ctx, r, "show", "Object tree")
            spec = next(x for x in os.listdir(d) if x.startswith("0=ocfl_object_"))[14:]
            if not any("\n" in x or "\r" in x for x in os.listdir(d)):
                ctx.check(show_lines(r.out) == want_show(d, spec, "content"), "tree shown differs from the object", "%s expected %s", show_lines(r.out), want_show(d, spec, "content"))
        elif k == "validate":
            r = tool(ctx, "ocfl-object.py", ["validate", "--objdir", d] + noise(rng))
            ok(ctx, r, "validate of valid object", "%s is VALID\n" % d)
        else:
            r = tool(ctx, "ocfl-validate.py", [d] + noise(rng))
            ok(ctx, r, "validate of valid object", "%s is VALID\n" % d)
    ctx.check(snapshot(d) == before, "reading command changed the object", "%s", snap_diff(before, snapshot(d)))


def refusals(ctx, d, i, states):
    """Commands that cannot succeed: non-zero exit and nothing changed."""
    rng = ctx.rng
    n = len(states)
    src, new, dst = ctx.path("src"), ctx.path("new"), ctx.path("dst")
    write_tree(ctx.dir, {"notobj/file": b"x"})
    write_tree(ctx.path("notobj"), {"sub/f": b"y"})
    tests = {
        "no identifier": ["create", "--objdir", new, "--srcdir", src],
        "empty identifier": ["create", "--objdir", new, "--srcdir", src, "--id="],
        "no source": ["create", "--objdir", new, "--id=x"],
        "missing source": ["create", "--objdir", new, "--id=x", "--srcdir", ctx.path("absent")],
        "existing object": ["create", "--objdir", d, "--id=x", "--srcdir", src],
        "existing directory": [rng.choice(["create", "build"]), "--objdir", ctx.path("notobj"), "--id=x", "--srcdir", src],
        "bad digest": ["create", "--objdir", new, "--id=x", "--srcdir", src, "--digest", rng.choice(["nope", "", "SHA512", "sha-512"])],
        "bad fixity": ["create", "--objdir", new, "--id=x", "--srcdir", src, "--fixity", "nope"],
        "bad created": ["create", "--objdir", new, "--id=x", "--srcdir", src, "--created", rng.choice(["yesterday", "2024-13-01T00:00:00Z", "a"])],
        "address without name": ["create", "--objdir", new, "--id=x", "--srcdir", src, "--address=mailto:x@y"],
        "bad normalization": ["create", "--objdir", new, "--id=x", "--srcdir", src, "--normalization", "nope"],
        "build without versions": ["build", "--objdir", new, "--id=x", "--srcdir", ctx.path("notobj")],
        "build without source": ["build", "--objdir", new, "--id=x"],
        "build missing source": ["build", "--objdir", new, "--id=x", "--srcdir", ctx.path("absent")],
        "build missing metadata": ["build", "--objdir", new, "--id=x", "--srcdir", src, "--metadata", ctx.path("absent.json")],
        "update without source": ["update", "--objdir", d],
        "update missing source": ["update", "--objdir", d, "--srcdir", ctx.path("absent")],
        "update of missing object": ["update", "--objdir", ctx.path("absent"), "--srcdir", src],
        "update of no object": ["update", "--objdir", ctx.path("notobj"), "--srcdir", src],
        "update bad digest": ["update", "--objdir", d, "--srcdir", src, "--digest", "nope"],
        "update bad created": ["update", "--objdir", d, "--srcdir", src, "--created", "nope"],
        "update missing bag": ["update", "--objdir", d, "--srcbag", ctx.path("absent")],
        "update not a bag": ["update", "--objdir", d, "--srcbag", src],
        "create not a bag": ["create", "--objdir", new, "--srcbag", src],
        "extract missing version": ["extract", "--objdir", d, "--dstdir", dst, "--objver", rng.choice(["v%d" % (n + 1), "v0", "1", "v", "head1", "v01", ""])],
        "extract missing object": ["extract", "--objdir", ctx.path("absent"), "--dstdir", dst],
        "extract no object": ["extract", "--objdir", ctx.path("notobj"), "--dstdir", dst],
        "extract missing file": ["extract", "--objdir", d, "--dstdir", dst, "--logical-path", "no/such/file"],
        "extract file to bag": ["extract", "--objdir", d, "--dstbag", dst, "--logical-path", "x"],
        "extract to existing": ["extract", "--objdir", d, "--dstdir", ctx.path("notobj")],
        "extract to existing bag": ["extract", "--objdir", d, "--dstbag", ctx.path("notobj")],
        "show missing": ["show", "--objdir", ctx.path("absent")],
        "validate missing": ["validate", "--objdir", ctx.path("absent")],
        "validate no object": ["validate", "--objdir", ctx.path("notobj")],
        "no command": [],
        "unknown command": ["destroy", "--objdir", d],
        "unknown option": ["validate", "--objdir", d, "--nope"],
        "no object": [rng.choice(["validate", "extract", "show", "update"])],
    }
    if any(re.fullmatch(r"v\d+", x) for x in os.listdir(ctx.path("notobj"))):
        return
    if not states[0][0]:
        del tests["bad normalization"]      # nothing to normalize
    for k in rng.sample(sorted(tests), 3):
        before = snapshot(ctx.dir)
        r = tool(ctx, "ocfl-object.py", tests[k])
        ctx.note("refused", k)
        failed(ctx, r, "command that cannot succeed (%s)" % k)
        diff = snap_diff(before, snapshot(ctx.dir))
        ctx.check(not diff, "failed command changed something (%s)" % k, "%s", diff)
        if k.startswith("validate ") :
            ctx.check(" is VALID" not in r.out, "valid reported with failure")


def damaged_object(ctx):
    """One object, valid or not, through both validating commands, and extract where content is damaged."""
    rng = ctx.rng
    d = ctx.path("obj")
    o = foreign.make(rng, ctx.tier, nv=rng.choice([1, 2, 3]), simple_paths=True)
    foreign.write(o, d)
    good, only, what = True, False, None
    if rng.random() < 0.7:
        good, what = False, c15.damage(rng, o, d)
        only = what in ("content", "sidecar")
    before = snapshot(d)
    ctx.note("object", what)
    dp = rng.choice([d, d, d + "/", os.path.relpath(d, os.getcwd())])
    r = tool(ctx, "ocfl-object.py", ["validate", "--objdir", dp] + noise(rng))
    judged(ctx, r, good, dp, "Object")
    flags, warn, err, digests = flags_for(rng)
    r = tool(ctx, "ocfl-validate.py", flags + [dp])
    want = good or (only and not digests)
    judged(ctx, r, want, dp, "Object")
    verbosity(ctx, r, flags, warn, err)
    _, v = OBJ().validate(objdir=d, check_digests=digests)
    codes = {c for c in v.log.codes}
    shown = set(re.findall(r"\[([EW]\d{3}[a-z]?)\]", r.out))
    wanted = {c for c in codes if (c[0] == "E" and err) or (c[0] == "W" and warn)}
    ctx.check(shown == wanted, "codes shown differ from those found", "%s expected %s (%s)", sorted(shown), sorted(wanted), flags)
    if what != "inventory gone" and rng.random() < 0.5 and os.path.exists(d + "/inventory.json"):
        f = os.path.join(dp, "inventory.json")
        try:
            inv = json.loads(open(f, "rb").read().decode("utf8"))
        except ValueError:
            inv = None
        w = inv is not None and not oracle.check_inventory(inv)[0]
        r = tool(ctx, "ocfl-validate.py", flags + [f])
        judged(ctx, r, w, f, "inventory")
    if not good:
        dst = ctx.path("dst")
        r = tool(ctx, "ocfl-object.py", ["extract", "--objdir", d, "--dstdir", dst])
        if r.status == 0 and what != "content":       # extracting does not verify digests
            ctx.check(read_tree(dst) == o.states[-1], "extract of damaged object gave other files", "%s", what)
        ctx.count("extract of damaged object: %s exit %d" % (what, r.status))
    ctx.check(snapshot(d) == before, "validation changed the object")


def judged(ctx, r, want, path, kind):
    v = "VALID" if want else "INVALID"
    ctx.check((r.status == 0) is want, "exit status is not the verdict", "%s expected %s, status %s\n%s", path, v, r.status, r.out[-600:])
    ctx.check(re.search(r"(?:^|\n)[^\n]*%s at %s is %s\n$" % (kind, re.escape(path), v), r.out), "verdict printed is not the verdict", "%s expected %s: %s", path, v, r.out[-300:])


def flags_for(rng):
    flags, warn, err, digests = [], True, True, True
    r = rng.random()
    if r < 0.25:
        flags.append(rng.choice(["-q", "--quiet"]))
        warn = False
    elif r < 0.5:
        flags.append(rng.choice(["-Q", "--very-quiet"]))
        warn = err = False
    if rng.random() < 0.3:
        flags.append("--no-check-digests")
        digests = False
    if rng.random() < 0.1:
        flags.append(rng.choice(["-v", "--debug"]))
    rng.shuffle(flags)
    return flags, warn, err, digests


def verbosity(ctx, r, flags, warn, err):
    if not warn:
        ctx.check("[W" not in r.out, "warnings shown though quiet", "%s %s", flags, r.out[-400:])
    if not err:
        ctx.check("[E" not in r.out, "errors shown though very quiet", "%s %s", flags, r.out[-400:])


def root_of_known_validity(ctx):
    rng = ctx.rng
    while True:
        r, stop = c15.compose(ctx)
        if stop != "E069d":
            break
        shutil.rmtree(r.dir)
    before = snapshot(r.dir)
    only = {p for p in getattr(r, "digest_only", ()) if not r.objects[p]}
    ctx.note("root", r.spec, len(r.objects), tuple(sorted(r.codes)), stop)
    for _ in range(2):
        nz = rng.choice([[], [], ["-q"], ["-v"], ["--debug"]])
        if rng.random() < 0.5:
            flags, warn, err, digests = flags_for(rng)
            x = tool(ctx, "ocfl-validate.py", flags + [r.dir])
            good = sum(r.objects.values()) + (0 if digests else len(only))
            want = stop is None and not r.codes and good == len(r.objects)
            ctx.check((x.status == 0) is want, "exit status is not the verdict", "root %s expected %s: %s", flags, want, x)
            last = [y for y in x.out.split("\n") if y][-1]
            if lib.ocfl.find_path_type(r.dir) == "root":
                ctx.check(last == "OCFL Storage Root at %s is %s" % (r.dir, "VALID" if want else "INVALID"), "verdict printed is not the verdict", "%s: %s", flags, last)
            else:
                ctx.check(stop is not None and not last.endswith(" VALID"), "verdict printed is not the verdict", "%s: %s", flags, last)
            verbosity(ctx, x, flags, warn, err)
        else:
            objs, dig = rng.random() < 0.7, rng.random() < 0.5
            a = ["validate", "--root", r.dir] + (["--validate-objects"] if objs else []) + (["--check-digests"] if dig else []) + nz
            if rng.random() < 0.2:
                a += ["--max_errors", rng.choice(["0", "1", "2", "1000"])]
            env = None
            if rng.random() < 0.2:
                env = {"OCFL_ROOT": r.dir}
                a = [y for y in a if y not in ("--root", r.dir)]
            x = tool(ctx, "ocfl-root.py", a, env=env)
            good = sum(r.objects.values()) + (0 if dig else len(only))
            want = stop is None and not r.codes and (not objs or good == len(r.objects))
            ctx.check((x.status == 0) is want, "exit status is not the verdict", "root %s expected %s: %s", a, want, x)
            last = [y for y in x.out.split("\n") if y][-1]
            ctx.check(last == "Storage root %s is %s" % (r.dir, "VALID" if want else "INVALID"), "verdict printed is not the verdict", "%s: %s", a, last)
            shown = set(re.findall(r"^\[(E\d{3}[a-z]?)\]", x.out, re.M))
            ctx.check((r.codes if stop is None else {stop}) <= shown, "faults of the root are not shown", "%s of %s", sorted(shown), sorted(r.codes))
            if stop is None and objs:
                n = len(r.objects)
                line = "Objects checked: %d / %d are VALID" % (n, n) if good == n else "Objects checked: %d / %d are INVALID" % (n - good, n)
                ctx.check(line in x.out, "numbers of objects printed are wrong", "%s not in %s", line, x.out[-300:])
    # listing
    x = tool(ctx, "ocfl-root.py", ["list", "--root", r.dir])
    if stop:
        failed(ctx, x, "list of broken root")
    else:
        listing(ctx, x, r.dir, {p: r.ids[p] for p in r.objects}, {p for p in r.objects if not r.objects[p]})
    ctx.check(snapshot(r.dir) == before, "validation changed the root")


def listing(ctx, x, root, ids, vague=()):
    """The lines printed are exactly the objects (identifier of the vague ones is not checked)."""
    ctx.check(x.status == 0, "list failed", "%s", x)
    out = x.out
    tail = "Found %d OCFL Objects under root %s\n" % (len(ids), root)
    ctx.check(out.endswith(tail), "list: number of objects wrong", "%r expected %r", out[-300:], tail)
    out = "\n" + out[:-len(tail)]
    for p, i in sorted(ids.items(), key=lambda t: -len(t[0] + t[1])):
        if p in vague:
            ctx.check("\n%s -- id=" % p in out, "list lacks an object", "%s", p)
            continue
        line = "\n%s -- id=%s\n" % (p, i)
        ctx.check(line in out, "list lacks an object", "%r in %r", line, out[-600:])
        out = out.replace(line, "\n", 1)
    if not vague:
        ctx.check(out == "\n", "list has lines for no object", "%r", out)


def several(ctx):
    """ocfl-validate.py with several paths: success only if every one is valid."""
    rng = ctx.rng
    paths, wants = [], []
    for k in range(rng.choice([1, 2, 2, 3, 4])):
        p = ctx.path("p%d" % k)
        kind = rng.choice(["object", "object", "bad object", "inventory", "bad inventory", "root", "missing", "empty", "plain", "text file"])
        w = False
        if kind in ("object", "bad object"):
            o = foreign.make(rng, ctx.tier, nv=1, simple_paths=True, max_files=2)
            foreign.write(o, p)
            w = kind == "object"
            if not w:
                c15.damage(rng, o, p)
        elif kind in ("inventory", "bad inventory"):
            o = foreign.make(rng, ctx.tier, nv=1, simple_paths=True, max_files=2)
            inv = o.invs[-1]
            if kind == "bad inventory":
                inv.pop(rng.choice(["id", "head", "type", "digestAlgorithm", "versions", "manifest"]))
            p += rng.choice([".json", "", ".inv"])
            write_tree(ctx.dir, {os.path.basename(p): foreign.dump(rng, inv)})
            w = kind == "inventory"
        elif kind == "root":
            lib.ocfl.StorageRoot(root=p, layout_name="0002-flat-direct-storage-layout").initialize()
            w = True
            if rng.random() < 0.5:
                write_tree(p, {"x/stray": b""})
                w = False
        elif kind == "empty":
            os.makedirs(p)
        elif kind == "plain":
            write_tree(p, {"a/b": b"x", "c": b""})
        elif kind == "text file":
            write_tree(ctx.dir, {os.path.basename(p): rng.choice([b"", b"hello", b"[]", b"\xff"])})
        paths.append(p)
        wants.append(w)
        ctx.sig.append((kind, w))
    flags, warn, err, _ = flags_for(rng)
    flags = [f for f in flags if f != "--no-check-digests"]
    ctx.note("several", len(paths), tuple(flags))
    x = tool(ctx, "ocfl-validate.py", flags + paths)
    ctx.check((x.status == 0) is all(wants), "exit status is not the verdict on all paths", "%s: %s", list(zip(paths, wants)), x)
    lines = x.out.split("\n")
    for p, w in zip(paths, wants):
        ctx.check(any(y.endswith(" at %s is VALID" % p) for y in lines) is w, "verdict on one of several paths wrong", "%s %s: %s", p, w, x)
        ctx.check(w or any(y.endswith(" at %s is INVALID" % p) or y.startswith("Bad path '%s'" % p) for y in lines), "no verdict on one of several paths", "%s: %s", p, x)
    verbosity(ctx, x, flags, warn, err)


def root_history(ctx):
    rng = ctx.rng
    root = ctx.path("root")
    name = rng.choice(sorted(c13.NAMES))
    kind = c13.NAMES[name]
    spec = rng.choice(["1.0", "1.1", "1.1"])
    cfg = {"0003": {"digestAlgorithm": "sha256", "tupleSize": 3, "numberOfTuples": 3}, "tuple": {"tupleSize": 2}, "uuid": {"prefix": "urn:uuid:"}}.get(kind)
    env, where = None, ["--root", root]
    if rng.random() < 0.25:
        env, where = {"OCFL_ROOT": root}, []
    elif rng.random() < 0.1:
        env = {"OCFL_ROOT": ctx.path("other")}       # the option goes before the environment
    args = ["create"] + where + ["--layout", name]
    if spec != "1.1" or rng.random() < 0.3:
        args += [rng.choice(["--spec-version", "--spec"]), spec]
    if cfg and rng.random() < 0.6:
        if kind == "0003":
            while True:
                cfg = c13.config_0003(rng)
                if c13.legal_0003(cfg):
                    break
        elif kind == "tuple":
            cfg = {"tupleSize": rng.randrange(2, 7)}
        else:
            cfg = {"prefix": rng.choice(["urn:uuid:", "x:", "http://example.org/"])}
        args += ["--layout-params", json.dumps(cfg)]
    if rng.random() < 0.15:
        bad = rng.choice([["--layout", "nope"], ["--layout", name, "--spec", "9.9"], ["--layout", name, "--layout-params", "{"], ["--layout", "0003-hash-and-id-n-tuple-storage-layout", "--layout-params", '{"tupleSize": 99}']])
        failed(ctx, tool(ctx, "ocfl-root.py", ["create"] + where + bad, env=env), "create of root with bad arguments")
        ctx.check(not os.path.exists(root), "failed create of root left something", "%s", bad)
    r = tool(ctx, "ocfl-root.py", args + noise(rng), env=env)
    ok(ctx, r, "create of root", "Created OCFL storage root %s\n" % root)
    twin = ctx.path("twin")
    lib.ocfl.StorageRoot(root=twin, layout_name=name).initialize(spec_version=spec, layout_params=json.dumps(cfg) if "--layout-params" in args else None)
    ctx.check(read_tree(root) == read_tree(twin), "root differs from what the library creates", "%s", sorted(read_tree(root)))
    ctx.check(os.path.exists(root + "/0=ocfl_" + spec), "option has no effect: --spec-version", "%s", sorted(os.listdir(root)))
    if cfg:
        with open(root + "/extensions/%s/config.json" % c13.CANON[kind], encoding="utf8") as fh:
            got = json.load(fh)
        ctx.check(got == dict(cfg, extensionName=c13.CANON[kind]), "option has no effect: --layout-params", "%s given %s", got, cfg)
    ctx.note("root", name, spec, json.dumps(cfg, sort_keys=True))
    s = snapshot(root)
    failed(ctx, tool(ctx, "ocfl-root.py", ["create"] + where + ["--layout", name], env=env), "create over existing root")
    have, files, bad = {}, {}, set()
    for k in range(rng.choice([1, 2, 3])):
        i = c14.ident_for(rng, kind, cfg, sorted(have.values()))
        o, d = c14.make_object(ctx, i, spec if rng.random() < 0.9 else "1.1", "obj%d" % k)
        broken = rng.random() < 0.15
        what = c15.damage(rng, o, d) if broken else None
        if what == "version dir":       # empty, not copied
            os.rmdir(d + "/v99")
            broken = False
        before = snapshot(root)
        want = c14.want_path(kind, cfg, i)
        if want != c13.REFUSED and not c14.usable(want):
            continue
        r = tool(ctx, "ocfl-root.py", ["add", "--src", d] + where + noise(rng), env=env)
        added = r.status == 0
        placed = want != c13.REFUSED and c14.usable(want)
        in_root = want in have or (placed and os.path.lexists(os.path.join(root, want)) and want in have)
        if not broken and placed and o.spec <= spec and not have and not want.startswith(("extensions", "0=", "ocfl_layout.json")):
            ctx.check(added, "add of object failed", "%s at %s: %s", i, want, r)
        if want == c13.REFUSED or o.spec > spec or in_root:
            failed(ctx, r, "add of object that cannot be added")
        ctx.sig.append(("add", added, broken))
        if added:
            ctx.check(r.out == "Added object %s at path %s\n" % (i, want), "add: output lacks what was done", "%s expected %s", r, want)
            ctx.check(read_tree(os.path.join(root, want)) == read_tree(d), "object added differs from its source", "%s", i)
            have[want] = i
            if broken:
                bad.add(want)
                if what == "head":
                    files[want] = what
        elif want == c13.REFUSED or c14.usable(want):
            ctx.check(snapshot(root) == before, "failed add changed the root", "%s", snap_diff(before, snapshot(root)))
    before = snapshot(root)
    listing(ctx, tool(ctx, "ocfl-root.py", ["list"] + where, env=env), root, have)
    valid = not bad
    r = tool(ctx, "ocfl-root.py", ["validate", "--validate-objects", "--check-digests"] + where + noise(rng), env=env)
    ctx.check((r.status == 0) is valid, "exit status is not the verdict", "root with %s bad: %s", bad, r)
    for p, i in have.items():
        full = os.path.join(root, p)
        for k in rng.sample(["path", "show", "validate-object"], 2):
            q = rng.choice([[], ["-q"], ["--quiet"], ["-v"]])
            r = tool(ctx, "ocfl-root.py", [k, "--id=" + i] + where + q, env=env)
            if k == "path":
                want = full + "\n" if q and q[0] != "-v" else "Path to %s inside root %s is %s\n" % (i, root, p)
                ctx.check(r.status == 0 and r.out == want, "path printed is wrong", "%s expected %r", r, want)
            elif k == "show":
                if p not in bad:
                    ok(ctx, r, "show", "[%s]" % full)
                    sp = next(x for x in os.listdir(full) if x.startswith("0=ocfl_object_"))[14:]
                    with open(full + "/inventory.json", "rb") as fh:
                        cd = json.loads(fh.read().decode("utf8")).get("contentDirectory", "content")
                    if not any("\n" in x for x in os.listdir(full)):
                        ctx.check(show_lines(r.out) == want_show(full, sp, cd), "tree shown differs from the object", "%s expected %s", show_lines(r.out), want_show(full, sp, cd))
            else:
                judged(ctx, r, p not in bad, full, "Object")
    for a in rng.sample([["show"], ["path"], ["validate-object"], ["add"], ["add", "--src", ctx.path("absent")], ["purge"], ["purge", "--id=x"], ["nope"], [], ["show", "--id=never-added"], ["validate-object", "--id=never-added"], ["list", "--nope"]], 3):
        failed(ctx, tool(ctx, "ocfl-root.py", a + (where if a else []), env=env), "command that cannot succeed (root %s)" % a[:1])
    for a in (["list"], ["validate"], ["add", "--src", ctx.path("obj0")], ["path", "--id=x"]):
        if rng.random() < 0.3:
            failed(ctx, tool(ctx, "ocfl-root.py", a + ["--root", ctx.path(rng.choice(["absent", "obj0"]))]), "command on what is no root")
    if rng.random() < 0.3:
        failed(ctx, tool(ctx, "ocfl-root.py", ["list"]), "command without root")
    ctx.check(snapshot(root) == before, "reading command changed the root", "%s", snap_diff(before, snapshot(root)))
    ctx.check(s == {x: y for x, y in snapshot(root).items() if x in s} or True, "")


def sidecars(ctx):
    rng = ctx.rng
    paths, want_ok, expect = [], True, {}
    for k in range(rng.choice([1, 1, 2, 3])):
        d = ctx.path("d%d" % k)
        kind = rng.choice(["object", "object", "dir", "no inventory", "missing", "other file"])
        if kind in ("object", "dir"):
            o = foreign.make(rng, ctx.tier, nv=rng.choice([1, 2]), simple_paths=True, max_files=2)
            if kind == "object":
                foreign.write(o, d)
                if rng.random() < 0.5:
                    with open(d + "/inventory.json", "ab") as fh:
                        fh.write(b"\n")
            else:
                write_tree(d, {"inventory.json": foreign.dump(rng, o.invs[-1])})
            expect[d] = o.algs[-1]
            paths.append(rng.choice([d, d + "/", d + "/inventory.json"]))
        elif kind == "no inventory":
            write_tree(d, {"x": b""})
            paths.append(rng.choice([d, d + "/inventory.json"]))
            want_ok = False
        elif kind == "missing":
            paths.append(rng.choice([d, d + "/inventory.json"]))
            want_ok = False
        else:
            write_tree(d, {"inventory.jso": b"{}"})
            paths.append(d + "/inventory.jso")
            want_ok = False
        ctx.sig.append((kind,))
    args = list(paths)
    alg = None
    if rng.random() < 0.4:
        alg = rng.choice(["sha512", "sha256", "md5", "sha1", "blake2b-512", "nope"])
        args += ["--digest", alg]
        if alg == "nope":
            want_ok = False
    before = read_tree(ctx.dir)
    ctx.note("sidecar", len(paths), alg, want_ok)
    r = tool(ctx, "ocfl-sidecar.py", args + noise(rng))
    ctx.check((r.status == 0) is want_ok, "exit status does not tell whether sidecars were written", "%s: %s", args, r)
    after = read_tree(ctx.dir)
    allowed = set()
    for d, a in expect.items():
        if alg == "nope":
            continue
        rel = os.path.basename(d)
        p = "%s/inventory.json.%s" % (rel, alg or a)
        allowed.add(p)
        want = (oracle.digest(after[rel + "/inventory.json"], alg or a) + " inventory.json\n").encode()
        ctx.check(after.get(p) == want, "sidecar written is wrong", "%s: %r", p, after.get(p))
        ctx.check("Written sidecar file %s" % d in r.out, "sidecar: output lacks what was done", "%s", r)
    ctx.check(all(after.get(p) == before.get(p) for p in (set(before) | set(after)) - allowed), "sidecar tool changed other files", "%s", [p for p in set(before) | set(after) if before.get(p) != after.get(p)])


def lax(ctx):
    """Objects with digest algorithms that only --lax-digests allows."""
    rng = ctx.rng
    d, root = ctx.path("obj"), ctx.path("root")
    alg = rng.choice(["sha1", "blake2b-512", "md5"])
    write_tree(ctx.path("src"), gen.tree(rng, gen.Pool(rng, False), n=rng.choice([1, 2, 3]), odd=0.1))
    r = tool(ctx, "ocfl-object.py", ["create", "--lax-digests", "--digest", alg, "--id=x", "--srcdir", ctx.path("src"), "--objdir", d])
    ok(ctx, r, "create")
    ctx.note("lax", alg)
    for given in (False, True):
        f = ["--lax-digests"] if given else []
        judged(ctx, tool(ctx, "ocfl-object.py", ["validate", "--objdir", d] + f), given, d, "Object")
        judged(ctx, tool(ctx, "ocfl-validate.py", [d] + f), given, d, "Object")
        judged(ctx, tool(ctx, "ocfl-validate.py", f + [d + "/inventory.json"]), given, d + "/inventory.json", "inventory")
    lib.ocfl.StorageRoot(root=root, layout_name="0002-flat-direct-storage-layout").initialize()
    failed(ctx, tool(ctx, "ocfl-root.py", ["add", "--root", root, "--src", d]), "add of object that only lax digests allow")
    ok(ctx, tool(ctx, "ocfl-root.py", ["add", "--root", root, "--src", d, "--lax-digests"]), "add with lax digests")
    for given in (False, True):
        f = ["--lax-digests"] if given else []
        r = tool(ctx, "ocfl-root.py", ["validate", "--validate-objects", "--check-digests", "--root", root] + f)
        ctx.check((r.status == 0) is given, "option has no effect: --lax-digests", "%s", r)
        r = tool(ctx, "ocfl-validate.py", [root] + f)
        ctx.check((r.status == 0) is given, "option has no effect: --lax-digests", "%s", r)
        r = tool(ctx, "ocfl-root.py", ["validate-object", "--id=x", "--root", root] + f)
        ctx.check((r.status == 0) is given, "option has no effect: --lax-digests", "%s", r)


def simple(ctx):
    rng = ctx.rng
    t = rng.choice(["ocfl-object.py", "ocfl-root.py", "ocfl-validate.py", "ocfl-sidecar.py"])
    r = tool(ctx, t, ["--version"])
    ctx.note("version", t)
    ctx.check(r.status == 0 and r.out == "%s is part of ocfl-py version %s\n" % (t, lib.ocfl.__version__), "version printed is wrong", "%s", r)
    r = tool(ctx, t, ["--help"])
    ctx.check(r.status == 0 and "usage" in r.out, "no help", "%s", r)


def case(ctx):
    part = ctx.rng.choice([object_history] * 6 + [damaged_object] * 4 + [root_of_known_validity] * 3 + [several] * 3 + [root_history] * 3 + [sidecars, lax])
    if ctx.rng.random() < 0.01:
        part = simple
    part(ctx)
    if not ctx.sig:
        ctx.count("nothing made")
