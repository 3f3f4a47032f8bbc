"""Driver: seeded cases over a process pool, verdicts, evidence, replays, known findings."""
import ast
import collections
import glob
import hashlib
import importlib
import json
import logging
import multiprocessing
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

REPO = os.environ.get("VF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if REPO not in sys.path:
    sys.path.insert(0, REPO)

from . import monitors  # noqa: E402
from .monitors import FS  # noqa: E402


class Violation(Exception):
    """The property was seen broken. mech is a short stable name of what failed."""

    def __init__(self, mech, msg):
        super().__init__("%s: %s" % (mech, msg))
        self.mech = mech
        self.msg = msg


class Hang(BaseException):
    """Raised by the watchdog: one case (normally milliseconds) is still running after CASE_LIMIT seconds."""


CASE_LIMIT = 100


def _alarm(signum, frame):
    raise Hang()


class Skip(Exception):
    """This case exercises nothing (does not count)."""


class HarnessError(Exception):
    """The harness itself is wrong or could not observe."""


def describe(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    where = ""
    for fr in reversed(tb):
        if fr.filename.startswith(REPO):
            where = "%s:%s" % (os.path.basename(fr.filename), fr.name)
            break
    return "%s(%s) at %s" % (type(exc).__name__, str(exc)[:200], where or "?")


class Ctx:
    """What a case gets: rng, a scratch directory, ways to note and to complain."""

    def __init__(self, prop, seed, index, tier, scratch, stats):
        self.prop, self.seed, self.index, self.tier = prop, seed, index, tier
        self.rng = random.Random("%s/%s/%s" % (prop, seed, index))
        self.dir = scratch
        self.stats = stats
        self.sig = []
        self.trace = []
        self.nontrivial = True

    def path(self, *parts):
        return os.path.join(self.dir, *parts)

    def count(self, name, n=1):
        self.stats["counts"][name] += n

    def note(self, *sig):
        """Add to this case's signature (distinctness) and count the feature."""
        self.sig.append(sig)
        self.stats["counts"]["feature " + "/".join(str(s) for s in sig)[:60]] += 1

    def log(self, msg):
        if len(self.trace) < 60:
            self.trace.append(str(msg)[:400])

    def fail(self, mech, msg):
        raise Violation(mech, str(msg)[:1500])

    def check(self, cond, mech, msg="", *args):
        self.stats["checks"] += 1
        if not cond:
            raise Violation(mech, (str(msg) % args if args else str(msg))[:1500])

    def call(self, what, fn, *args, **kw):
        """Call the library where it must succeed: any exception is a violation."""
        self.stats["calls"] += 1
        try:
            return fn(*args, **kw)
        except Violation:
            raise
        except Exception as e:  # pylint: disable=broad-except
            raise Violation("%s raised %s" % (what, type(e).__name__), describe(e))

    def refused(self, what, excs, fn, *args, **kw):
        """Call the library where it must refuse with one of excs."""
        self.stats["calls"] += 1
        try:
            r = fn(*args, **kw)
        except excs as e:
            return e
        except Exception as e:  # pylint: disable=broad-except
            raise Violation("%s refused with wrong exception %s" % (what, type(e).__name__), describe(e))
        raise Violation("%s not refused" % what, "returned %r" % (r,))


# ---------------------------------------------------------------- dictionary

_DICT = None


def source_dictionary():
    """String and int constants of the library's current source.

    Fuzzing dictionary: values the code itself singles out are the ones worth trying.
    """
    global _DICT
    if _DICT is not None:
        return _DICT
    strs, ints = set(), set()
    for fn in sorted(glob.glob(os.path.join(REPO, "ocfl", "*.py"))):
        try:
            with open(fn, encoding="utf-8") as fh:
                tree = ast.parse(fh.read())
        except (OSError, SyntaxError):
            continue
        doc = set()
        for node in ast.walk(tree):
            if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
                doc.add(id(node.value))
        for node in ast.walk(tree):
            if isinstance(node, ast.Constant) and id(node) not in doc:
                v = node.value
                if isinstance(v, str) and 0 < len(v) <= 24 and "\n" not in v:
                    strs.add(v)
                elif isinstance(v, int) and not isinstance(v, bool) and 0 <= v <= 2 ** 20:
                    ints.add(v)
            elif isinstance(node, ast.BinOp):
                try:
                    v = eval(compile(ast.Expression(node), "", "eval"), {"__builtins__": {}})  # noqa: S307
                    if isinstance(v, int) and 0 < v <= 2 ** 21:
                        ints.add(v)
                except Exception:  # noqa
                    pass
    _DICT = (sorted(strs), sorted(ints))
    return _DICT


# ---------------------------------------------------------------- workers

def _init_worker(scratch_base):
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    sys.dont_write_bytecode = True
    FS.allowed = [os.path.realpath(scratch_base)]
    FS.install()
    tempfile.tempdir = scratch_base


def unusable(e, scratch):
    """True for an exception that comes from using results or files that are not what the documentation says they are.

    None of these happens while the library does what it should; anything else is a failure of the harness or machine.
    """
    if isinstance(e, (HarnessError, MemoryError)):
        return False
    if isinstance(e, (FileNotFoundError, NotADirectoryError, IsADirectoryError)):
        return str(e.filename or "").startswith(scratch)
    return isinstance(e, (TypeError, AttributeError, LookupError, ValueError, AssertionError, RecursionError))


def again(mod, prop, seed, i, tier, scratch, e, stats):
    """True if the case ends with the same kind of exception when it is done once more."""
    FS.enabled, FS.fault, FS.events, FS.fault_reads = False, None, None, False
    os.chdir(os.path.dirname(scratch))
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    FS.enabled = True
    try:
        mod.case(Ctx(prop, seed, i, tier, scratch, dict(stats, counts=collections.Counter())))
    except Hang:
        return False
    except Exception as x:  # pylint: disable=broad-except
        return type(x) is type(e)
    return False


def _worker(args):
    modname, prop, seed, tier, widx, nw, ncases, start, deadline, scratch_base = args
    stats = {"counts": collections.Counter(), "checks": 0, "calls": 0, "cases": 0, "skipped": 0,
             "nontrivial": 0, "sigs": set(), "viols": [], "errors": [], "samples": [], "events": 0, "truncated": False}
    scratch_base = os.path.realpath(scratch_base)
    os.makedirs(scratch_base, exist_ok=True)
    _init_worker(scratch_base)
    os.chdir(scratch_base)
    lines = monitors.LineMonitor([os.path.join(REPO, "ocfl") + "/", os.path.join(REPO, "ocfl-")])
    lines.install()
    mod = importlib.import_module(modname)
    mechs = set()
    signal.signal(signal.SIGALRM, _alarm)
    for i in range(start + widx, start + ncases, nw):
        if time.time() > deadline:
            stats["truncated"] = True
            break
        d = os.path.join(scratch_base, "w%d" % widx)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        ctx = Ctx(prop, seed, i, tier, d, stats)
        FS.escapes = []
        FS.fault = None
        FS.events = None
        FS.enabled = True
        t0 = FS.total
        viol = None
        try:
            signal.setitimer(signal.ITIMER_REAL, getattr(mod, "CASE_LIMIT", CASE_LIMIT))
            mod.case(ctx)
            stats["cases"] += 1
        except Hang as h:
            stats["cases"] += 1
            where = [fr for fr in traceback.extract_tb(h.__traceback__) if fr.filename.startswith(REPO)]
            if where:
                viol = Violation("library does not return", "in %s after the case limit" % where[-1].name)
            else:
                stats["errors"].append({"index": i, "error": "case limit exceeded outside the library", "tb": traceback.format_exc()[-3000:]})
        except Skip:
            stats["skipped"] += 1
        except Violation as v:
            stats["cases"] += 1
            viol = v
        except Exception as e:  # pylint: disable=broad-except
            if unusable(e, d) and again(mod, prop, seed, i, tier, d, e, stats):
                stats["cases"] += 1
                viol = Violation("what the library made cannot be used (%s)" % type(e).__name__, "%s; %s" % (describe(e), traceback.format_exc()[-700:]))
            else:
                stats["errors"].append({"index": i, "error": describe(e), "tb": traceback.format_exc()[-3000:]})
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            FS.enabled = False
            FS.fault = None
            FS.fault_reads = False
            FS.events = None
            os.chdir(scratch_base)
        stats["events"] += FS.total - t0
        if FS.escapes and viol is None and not getattr(mod, "ESCAPES_OK", False):
            viol = Violation("write outside the scratch area", json.dumps(FS.escapes[:3]))
        if viol is not None:
            if viol.mech not in mechs or len(stats["viols"]) < 5:
                stats["viols"].append({"index": i, "mech": viol.mech, "msg": viol.msg, "trace": ctx.trace})
            mechs.add(viol.mech)
        elif ctx.nontrivial and ctx.sig:
            stats["nontrivial"] += 1
            stats["sigs"].add(hashlib.sha1(repr(ctx.sig).encode("utf8", "replace")).hexdigest()[:16])
            if len(stats["samples"]) < 2:
                stats["samples"].append({"index": i, "what": [" ".join(map(str, s))[:200] for s in ctx.sig[:12]], "trace": ctx.trace[:14]})
        if len(stats["errors"]) > 20 or len(stats["viols"]) > 60:
            break
    shutil.rmtree(os.path.join(scratch_base, "w%d" % widx), ignore_errors=True)
    stats["lines"] = {(os.path.basename(f), ln) for f, ln in lines.lines}
    return stats


def _run_worker(a, conn):
    try:
        conn.send(_worker(a))
    except BaseException as e:  # pylint: disable=broad-except
        conn.send({"fatal": describe(e) + traceback.format_exc()[-1500:]})
    conn.close()


def load_known():
    fn = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(fn):
        return []
    with open(fn, encoding="utf-8") as fh:
        return json.load(fh).get("findings", [])


def make_scratch():
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
    try:
        if base and shutil.disk_usage(base).free < 2 * 2 ** 30:
            base = None
    except OSError:
        base = None
    return tempfile.mkdtemp(prefix="vf-", dir=base)


def executable_lines():
    """Number of executable lines of each library file."""
    out = {}
    for fn in glob.glob(os.path.join(REPO, "ocfl", "*.py")):
        try:
            with open(fn, encoding="utf-8") as fh:
                code = compile(fh.read(), fn, "exec")
        except (OSError, SyntaxError):
            continue
        todo, lines = [code], set()
        while todo:
            c = todo.pop()
            lines |= {ln for _, _, ln in c.co_lines() if ln}
            todo += [k for k in c.co_consts if hasattr(k, "co_code")]
        out[os.path.basename(fn)] = len(lines)
    return out


def run_property(prop, tier, seed, ncases=None, cap=None, start=0, workers=None, quiet=False, write=True):
    modname = "vf.props.%s" % prop.lower()
    mod = importlib.import_module(modname)
    ncases = ncases or (mod.QUICK if tier == "quick" else mod.THOROUGH)
    cap = cap or (300 if tier == "quick" else 3600)
    nw = workers or min(8, os.cpu_count() or 1)
    t0 = time.time()
    deadline = t0 + cap
    base = make_scratch()
    results = []
    try:
        procs = []
        for w in range(nw):
            a, b = multiprocessing.Pipe(False)
            p = multiprocessing.get_context("fork").Process(
                target=_run_worker, args=((modname, prop, seed, tier, w, nw, ncases, start, deadline,
                                           os.path.join(base, "p%d" % w)), b))
            p.start()
            b.close()
            procs.append((p, a))
        for p, a in procs:
            try:
                results.append(a.recv())
            except EOFError:
                results.append({"fatal": "worker died without a report"})
        for p, _ in procs:
            p.join(10)
            if p.is_alive():
                p.kill()
    finally:
        shutil.rmtree(base, ignore_errors=True)
    fatal = [r["fatal"] for r in results if "fatal" in r]
    results = [r for r in results if "fatal" not in r]
    tot = lambda k: sum(r[k] for r in results)  # noqa: E731
    sigs = set().union(*[r["sigs"] for r in results]) if results else set()
    lines = set().union(*[r["lines"] for r in results]) if results else set()
    counts = sum((r["counts"] for r in results), collections.Counter())
    viols = sorted([v for r in results for v in r["viols"]], key=lambda v: v["index"])
    errors = [e for r in results for e in r["errors"]]
    samples = [s for r in results for s in r["samples"]][:6]
    known = [k for k in load_known() if k["property"] == prop]
    kf, fresh, by_mech = {}, [], collections.OrderedDict()
    for v in viols:
        hit = next((k for k in known if k["mech"] == v["mech"] and (not k.get("contains") or k["contains"] in v["msg"])), None)
        if hit:
            kf[hit["mech"]] = hit
        else:
            fresh.append(v)
            by_mech.setdefault(v["mech"], v)
    per_file = collections.Counter(f for f, _ in lines)
    ex = executable_lines()
    cov = {
        "evaluations": tot("cases"),
        "distinct_nontrivial": len(sigs),
        "rule": mod.RULE,
        "samples": samples or [{"note": "no passing non-trivial case"}],
        "oracle_checks": tot("checks"),
        "library_calls": tot("calls"),
        "fs_events_observed": tot("events"),
        "skipped": tot("skipped"),
        "counts": dict(counts.most_common(120)),
        "library_lines_executed": {f: "%d/%d" % (per_file[f], ex.get(f, 0)) for f in sorted(per_file) if f in ex},
        "truncated_by_time": any(r["truncated"] for r in results),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": mod.LEVEL, "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2),
          "violations": len(fresh)}
    if write:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w", encoding="utf-8") as fh:
            json.dump(ev, fh, indent=1, ensure_ascii=True, default=str)
            fh.write("\n")
    for k in known:
        if k["mech"] in kf or k.get("always"):
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    shown = 0
    for mech, v in by_mech.items():
        if shown >= 12:
            break
        shown += 1
        os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        rp = os.path.join(VERIF, "replay", "%s-%s-%s-%d.json" % (prop, tier, seed, v["index"]))
        with open(rp, "w", encoding="utf-8") as fh:
            json.dump({"property": prop, "tier": tier, "seed": seed, **v}, fh, indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        print("  %s: %s" % (mech, v["msg"][:600]))
        if not quiet:
            for t in v["trace"][-8:]:
                print("    . " + t)
    for e in errors[:3]:
        print("HARNESS-ERROR case %s: %s\n%s" % (e["index"], e["error"], e["tb"] if not quiet else ""))
    for f in fatal[:3]:
        print("HARNESS-ERROR worker: %s" % f)
    print("%s %s seed=%s: %d cases, %d distinct, %d checks, %d library calls, %d fs events, %d violations, %d errors, %.1fs"
          % (prop, tier, seed, cov["evaluations"], len(sigs), cov["oracle_checks"], cov["library_calls"],
             cov["fs_events_observed"], len(fresh), len(errors) + len(fatal), ev["wall_s"]))
    if fresh:
        return 1
    if errors or fatal or cov["evaluations"] == 0 or len(sigs) < getattr(mod, "MIN_DISTINCT", 2) or cov["oracle_checks"] == 0:
        print("INCONCLUSIVE property=%s (harness errors or nothing observed)" % prop)
        return 3
    return 0


def replay(path):
    with open(path, encoding="utf-8") as fh:
        r = json.load(fh)
    return run_property(r["property"], r["tier"], r["seed"], ncases=1, start=r["index"], workers=1, write=False)
