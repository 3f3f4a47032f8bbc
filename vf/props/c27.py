"""C27: results do not depend on the environment of the process."""
import json
import os
import shutil
import subprocess
import sys


from vf import lib, oracle, script
from vf.common import HarnessError
from vf.monitors import read_tree

ID = "C27"
LEVEL = "exploration"
QUICK, THOROUGH = 110, 2500
MIN_DISTINCT = 60
CASE_LIMIT = 150
RULE = ("A generated program of library calls (create, updates, extractions, bag export, validation of sound, damaged and foreign objects, storage root creation, additions, listing, validation; text in any script) is carried out "
        "in separate processes from the same sources: a plain one, then others that differ in hash seed, time zone, a non-UTF-8 locale, optimisation (asserts off), umask, working directory with relative paths, order of "
        "directory listings, working directory changed between calls, a limit of 48 open files, debug logging, closed standard streams. Every result, message and written byte must agree (listing order may choose other stored copies: then verdicts, versions and extracted bytes agree); "
        "times written by default must lie within the run. Distinct by program and environments.")
ASSUMPTIONS = ["File names are ASCII in the non-UTF-8 locale (Python itself cannot pass others through)", "The order of directory listings may decide which of several equal files is stored"]
ZONES = ["Asia/Kolkata", "America/St_Johns", "Pacific/Kiritimati", "Pacific/Pago_Pago", "XYZ-13:45", "XYZ11:30"]


def variants(rng):
    out = [("hash seed", {"PYTHONHASHSEED": str(rng.randrange(1, 4294967295))}, [], {}),
           ("time zone", {"TZ": rng.choice(ZONES)}, [], {}),
           ("locale", {"LC_ALL": "C", "LANG": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, [], {}),
           ("locale", {"LC_ALL": "C", "LANG": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, [], {}),
           ("optimised", {}, [rng.choice(["-O", "-OO"])], {}),
           ("development mode", {}, ["-X", "dev"], {}),
           ("umask", {}, [], {"umask": rng.choice([0, 0o77, 0o27])}),
           ("working directory", {}, [], {"rel": True}),
           ("working directory", {}, [], {"rel": True, "chdir": True}),
           ("debug logging", {}, [], {"logging": True}),
           ("standard streams closed", {}, [], {"closed": True}),
           ("listing order", {}, [], {"shuffle": rng.randrange(10 ** 9)}),
           ("listing order", {}, [], {"shuffle": rng.randrange(10 ** 9)}),
           ("open files", {}, [], {"nofile": 48}),
           ("bare environment", {"HOME": "/nonexistent", "USER": "", "PATH": "/nonexistent", "TMPDIR": "/nonexistent"}, [], {})]
    k = rng.sample(range(len(out)), 4)
    return [out[i] for i in sorted(k)]


def execute(ctx, steps, env, flags, job, keep):
    """Run the program in a process of its own; returns results and the files it wrote."""
    base = ctx.path("base")
    if os.path.isdir(base):
        shutil.rmtree(base)
    shutil.copytree(keep, base)
    prog, out = ctx.path("program.json"), ctx.path("result.json")
    with open(prog, "w", encoding="utf-8") as fh:
        json.dump(dict(job, steps=steps, base=base), fh)
    if os.path.exists(out):
        os.remove(out)
    e = {"LC_ALL": "C.UTF-8", "PYTHONHASHSEED": "0", "TZ": "UTC", "PATH": os.environ.get("PATH", ""), "HOME": ctx.dir, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONPATH": os.environ.get("PYTHONPATH") or lib.VERIF + ":" + lib.WANT, "PYTHONWARNINGS": "ignore"}
    e["VF_REPO"] = lib.WANT
    e.update(env)
    cwd = ctx.path("elsewhere" if ctx.rng.random() < 0.5 else "base")
    os.makedirs(cwd, exist_ok=True)
    p = subprocess.run([sys.executable] + flags + ["-m", "vf.script", prog, out], env=e, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120, check=False)
    ctx.stats["calls"] += len(steps)
    if not os.path.isfile(out):
        raise HarnessError("program did not run to its end under %s %s %s: %s" % (env, flags, job, p.stdout.decode("utf8", "replace")[-600:]))
    with open(out, encoding="utf-8") as fh:
        res = json.load(fh)
    return res, read_tree(base)


def trim(results, steps, base_files=False):
    """What must agree even when the order of listings differs."""
    out = []
    for r, s in zip(results, steps):
        if s["op"] == "edit" and r[0] == "ok":
            out.append([sorted(r[1][-3]), len(r[1][-2])])
        elif s.get("codes") and r[0] == "ok":
            out.append(r[1][:6] + [c for c, _ in r[1][6]])
        elif s["op"] in ("create", "update", "inventory", "inventory_file", "tree"):
            if r[0] != "ok":
                out.append(r)
                continue
            if s["op"] == "tree":
                out.append("ok")
                continue
            inv = r[1]
            out.append({k: inv.get(k) for k in ("id", "type", "head", "digestAlgorithm", "contentDirectory")} | {"versions": inv["versions"], "digests": sorted(inv["manifest"])})
            for v in inv["versions"].values():
                for ps in v["state"].values():
                    ps.sort()
        else:
            out.append(r)
    return out


def case(ctx):
    rng = ctx.rng
    keep = ctx.path("keep")
    os.makedirs(keep)
    vs = variants(rng)
    ascii_names = any(v[0] == "locale" for v in vs)
    times = rng.random() < 0.25
    steps, states, ident, _ = script.make(rng, keep, ascii_names=ascii_names, default_times=times)
    steps = [x for s in steps for x in ([s, {"op": "inventory_file", "obj": s["obj"]}] if s["op"] == "inventory" else [s])]
    t0 = __import__("time").time()
    want, files = execute(ctx, steps, {}, [], {}, keep)
    for s, r in zip(steps, want):
        if s["op"] in ("create", "update", "extract", "inventory"):
            ctx.check(r[0] == "ok", "step failed in the plain environment", "%s: %s", s["op"], r)
    obj = ctx.path("base", "obj")
    bad = oracle.check_object(obj)
    ctx.check(not bad, "object written in the plain environment not conforming", "%s", bad[:2])
    for name, env, flags, job in vs:
        ctx.count("environment: " + name)
        ctx.note(name, len(steps))
        got, gfiles = execute(ctx, steps, env, flags, job, keep)
        if job.get("nofile"):
            n = got.pop()
            ctx.check(n < 16, "files left open at the end", "%d", n)
        if times:
            window(ctx, name, t0)
            got_, want_ = blank(got), blank(want)
        else:
            got_, want_ = got, want
        if name == "listing order":
            got_, want_ = trim(got_, steps), trim(want_, steps)
            bad = oracle.check_object(obj)
            ctx.check(not bad, "object not conforming with another order of listings", "%s", bad[:2])
            for i, st in enumerate(states):
                ctx.check(oracle.reconstruct(obj, "v%d" % (i + 1)) == st, "version differs with another order of listings", "v%d", i + 1)
        if name == "working directory":
            got_, want_ = [nopaths(x) for x in got_], [nopaths(x) for x in want_]
        for s, a, b in zip(steps, want_, got_):
            ctx.check(a == b, "result depends on the environment: " + name, "%s under %s %s %s\n plain %s\n there %s", s["op"], env, flags, job, *differ(a, b))
        if name != "listing order" and not times:
            only = sorted(p for p in set(files) | set(gfiles) if files.get(p) != gfiles.get(p) and not p.startswith("bag/") or p.startswith("bag/data/") and files.get(p) != gfiles.get(p))
            ctx.check(not only, "bytes written depend on the environment: " + name, "%s under %s %s %s: %s", only[:4], env, flags, job, [(files.get(p, b"")[:80], gfiles.get(p, b"")[:80]) for p in only[:1]])
        ctx.count("results compared", len(got))


def differ(a, b):
    x, y = json.dumps(a, sort_keys=True), json.dumps(b, sort_keys=True)
    i = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
    return x[max(0, i - 60):i + 160], y[max(0, i - 60):i + 160]


def nopaths(v):
    """Messages name paths as they were given."""
    if isinstance(v, list) and v and v[0] == "raised":
        return v[:2]
    return v


def blank(results):
    """Without what a default time changes."""
    out = []
    for r in json.loads(json.dumps(results)):
        if r[0] == "ok" and isinstance(r[1], dict) and "versions" in r[1]:
            for v in r[1]["versions"].values():
                v["created"] = "T"
        elif r[0] == "ok" and isinstance(r[1], list) and len(r[1]) == 4 and isinstance(r[1][3], dict) or r[0] == "ok" and isinstance(r[1], list) and len(r[1]) == 2 and isinstance(r[1][1], dict):
            r[1][0] = [x for x in r[1][0] if x[0] != "created"]
        elif r[0] == "ok" and isinstance(r[1], dict):
            r[1] = sorted(r[1])
        out.append(r)
    return out


def window(ctx, name, t0):
    """Times in the object are the given ones or lie within this run, whatever the time zone."""
    import time
    with open(ctx.path("base", "obj", "inventory.json"), encoding="utf-8") as fh:
        inv = json.load(fh)
    with open(ctx.path("program.json"), encoding="utf-8") as fh:
        given = [s["meta"]["created"] for s in json.load(fh)["steps"] if s["op"] in ("create", "update") and s["obj"] == "obj"]
    for i, g in enumerate(given):
        c = inv["versions"]["v%d" % (i + 1)]["created"]
        if g is not None:
            ctx.check(c == g, "time given was changed", "%s %s", g, c)
            continue
        err, t = oracle_time(c)
        ctx.check(not err and t0 - 2 <= t <= time.time() + 2, "time written by default is not the time of the run", "%s: %s, run began %s", name, c, t0)
        ctx.count("default times checked")


def oracle_time(c):
    import datetime
    try:
        return None, datetime.datetime.fromisoformat(c.replace("Z", "+00:00")).timestamp()
    except ValueError as e:
        return str(e), 0
