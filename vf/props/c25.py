"""C25: every problem is reported by a documented code and a complete message that says where."""
import copy
import json
import os
import re
import shutil

from ocfl.validation_logger import ValidationLogger

from vf import foreign, gen, hostile, lib, truth
from vf.common import Skip
from vf.props import c08, c09, c10, c15

ID = "C25"
LEVEL = "exploration"
QUICK, THOROUGH = 2500, 60000
MIN_DISTINCT = 300
RULE = ("Corrupted objects (C08's corruptions), inventories breaking one rule (C09), disagreeing inventories (C10), faulty roots (C15) and structure-aware fuzz of objects and roots (C11's), "
        "each validated with messages for errors and/or warnings on and off. Every message recorded must have the form of the documented description of its code, all parameters filled, link to the section of a "
        "supported specification; numbers, codes and messages must agree; settings change what is shown and nothing else; a fault planted at a known place must be named by a message. Distinct by (source, faults).")

TABLE = json.load(open(os.path.join(lib.WANT, "ocfl", "data", "validation-errors.json"), encoding="utf-8"))
FORM = re.compile(r"\[([EW]\d\d\d[a-z]?)\] (.*)\Z", re.S)
LINK = re.compile(r"(.*) \(see https://ocfl\.io/(\d+\.\d+)/spec/#([EW]\d\d\d)\)\Z", re.S)
_CACHE = {}


def template(code):
    """Regular expression for the description of code, and names of its parameters."""
    if code not in _CACHE:
        t = TABLE[code]["description"]["en"]
        parts = re.split(r"(%s|%%)", t)
        rx = "".join("(.*)" if p == "%s" else re.escape("%" if p == "%%" else p) for p in parts)
        _CACHE[code] = re.compile(rx + r"\Z", re.S), TABLE[code].get("params", []), t, re.compile(rx.replace("(.*)", "(.*?)") + r"\Z", re.S)
    return _CACHE[code]


def in_input(ctx):
    """The text ??? itself occurs in what is validated."""
    for dp, ds, fs in os.walk(ctx.path()):
        if any("???" in x for x in ds + fs):
            return True
        for f in fs:
            if os.path.isfile(os.path.join(dp, f)) and b"???" in open(os.path.join(dp, f), "rb").read():
                return True
    return False


def parse(ctx, m, bare=False):
    """Check the form of one message. Returns code, [(name, value)], link version."""
    f = FORM.match(m)
    ctx.check(f, "message without a documented code", "%r", m[:300])
    code, rest = f.group(1), f.group(2)
    ctx.check(code in TABLE and TABLE[code].get("description", {}).get("en"), "code reported is not documented", "%r", m[:300])
    version = None
    if int(code[1:4]) < 200:
        k = LINK.match(rest)
        ctx.check(k, "message without link to the specification", "%r", m[-200:])
        rest, version = k.group(1), k.group(2)
        ctx.check(version in ("1.0", "1.1") and k.group(3) == code[:4], "link to another section of the specification", "%s: %r", code, m[-120:])
    rx, names, text, lazy = template(code)
    ctx.check(text.count("%s") == len(names), "description and parameters of a code do not agree", "%s: %r %s", code, text, names)
    g = rx.match(rest)
    ctx.check(g, "message is not the documented description of its code", "%s: %r for %r", code, rest[:300], text)
    vals = list(zip(names, g.groups()))
    for n, v in vals:
        ctx.check(v != "???" or (bare and n == "where") or in_input(ctx), "message lacks a parameter", "%s: %s in %r", code, n, rest[:300])
        ctx.count("parameters filled")
    if lazy.match(rest).groups() != g.groups():
        ctx.count("messages that can be read in two ways")
        vals = Twoway(vals)
    return code, vals, version


class Twoway(list):
    """Parameters that cannot be told apart for sure."""


def true_claims(ctx, out, claims):
    """What messages say must be so."""
    for code, vals, _ in out:
        if isinstance(vals, Twoway) or not vals:
            continue
        t = truth.judge(claims, code, vals)
        if t is None:
            ctx.count("claims not decided: " + code)
            continue
        ctx.check(t, "message says what is not so: " + code, "%s in %s", vals, claims.d or claims.given)
        ctx.count("claims true: " + code)


def judge(ctx, log, errors, warnings, bare=False, prior=()):
    """Check one log as a whole. Returns its parsed messages."""
    out = [parse(ctx, m, bare) for m in log.messages[len(prior):]]
    ctx.count("messages", len(out))
    for c, _, _ in out:
        ctx.sig.append((c,))
    ne, nw = sum(c[0] == "E" for c, _, _ in out), sum(c[0] == "W" for c, _, _ in out)
    ctx.check(ne == (log.num_errors if errors else 0), "number of error messages differs from number of errors", "%d messages, %d errors, log_errors=%s", ne, log.num_errors, errors)
    ctx.check(nw == (log.num_warnings if warnings else 0), "number of warning messages differs from number of warnings", "%d messages, %d warnings, log_warnings=%s", nw, log.num_warnings, warnings)
    last = {c: m for (c, _, _), m in zip(out, log.messages)}
    for c, m in log.codes.items():
        parse(ctx, m, bare)
        on = errors if c[0] == "E" else warnings
        ctx.check(not on or last.get(c) == m, "message kept for a code is not the last one logged", "%s: %r / %r", c, m[:150], str(last.get(c))[:150])
    ctx.check(set(last) <= set(log.codes), "message of a code that is not recorded", "%s", set(last) - set(log.codes))
    text = ctx.call("status text", log.status_str, prefix="##")
    ctx.check(sorted(text.split("\n")) == sorted("\n".join("##" + m for m in log.messages).split("\n")), "status text is not the messages", "%r", text[:300])
    ctx.check(str(log) == "\n".join(sorted(log.messages)), "text of log is not its messages", "%r", str(log)[:300])
    return out


def settings(ctx, run):
    """run(log_errors=, log_warnings=) -> (passed, log) under all settings: they change what is shown, nothing else."""
    full = run(log_errors=True, log_warnings=True)
    res = judge(ctx, full[1], True, True)
    want = (full[0], sorted(full[1].codes), full[1].num_errors, full[1].num_warnings)
    for e, w in ctx.rng.sample([(True, False), (False, True), (False, False)], 2):
        passed, log = run(log_errors=e, log_warnings=w)
        judge(ctx, log, e, w)
        got = (passed, sorted(log.codes), log.num_errors, log.num_warnings)
        ctx.check(got == want, "verdict, codes or numbers depend on what is shown", "errors %s warnings %s: %s, with all shown %s", e, w, got, want)
        ctx.check(sorted(log.messages) == sorted(m for m in full[1].messages if (e if m[1] == "E" else w)), "messages shown are not those of the severities asked for", "%s", log.messages[:3])
    return full[0], full[1], res


def of_object(ctx, d, lax=False):
    def run(**kw):
        passed, v = ctx.call("validate", lib.ocfl.Object(lax_digests=lax).validate, objdir=d, **kw)
        return passed, v.log
    passed, log, out = settings(ctx, run)
    true_claims(ctx, out, truth.Claims(d))
    return passed, log, out


def named(ctx, what, log, places):
    """Some error message contains one of the places."""
    ctx.check(any(p in m for m in log.messages if m[1] == "E" for p in places), "no message names the fault: " + what, "%s in %s", places, [m[:200] for m in log.messages[:6]])
    ctx.count("faults named")


class Bench8(c08.Bench):
    """Corruptions of C08, judged by their messages."""

    def expect(self, name, families, structural, detail=""):
        ctx = self.ctx
        ctx.sig.append((name,))
        ctx.count("corruption: " + name)
        passed, log, out = of_object(ctx, self.d)
        ctx.check(passed is False, "corruption not reported: " + name, "%s", detail)
        present = {o for o in self.o.content}
        now = set()
        for dp, _, fs in os.walk(self.d):
            now |= {os.path.relpath(os.path.join(dp, f), self.d) for f in fs}
        places = [p for p in present ^ {q for q in now if "/" in q and q.split("/")[1:2] == [self.o.content_dir]} if p]     # files that came or went
        if name.startswith("content ") and detail and not places and name not in ("content swapped",):
            f = detail.rsplit(" size ", 1)[0]
            places = [f] if f in present else []
        elif name in ("stray file in version directory", "stray file in root", "empty directory in content"):
            places = [os.path.basename(detail)]
        if places and "content directory" not in name:
            named(ctx, name, log, places)


def do_corrupt(ctx):
    rng = ctx.rng
    o = foreign.make(rng, ctx.tier, pads=foreign.WIDE)
    d = ctx.path("obj")
    foreign.write(o, d)
    b = Bench8(ctx, o, d)
    ctx.sig.append(("corrupt", tuple(o.features)))
    for m in rng.sample(c08.MUTS, 5):
        if m in c08.NEEDS_CONTENT and not o.content:
            continue
        ctx.log(m.__name__)
        m(b)
        b.restore()


def do_rule(ctx):
    """One broken rule in one inventory: which one must be said."""
    rng = ctx.rng
    o = foreign.make(rng, ctx.tier, pads=foreign.WIDE, nv=rng.choice([1, 2, 3, 3, 10]))
    d = ctx.path("obj")
    foreign.write(o, d)
    done = 0
    for _ in range(5):
        n = len(o.vdirs)
        place = rng.choice(["dict", "file", "object", "prior", "prior"])
        ks = [i for i in range(n - 1) if i not in o.missing_inv]
        if place == "prior" and not ks:
            continue
        k = rng.choice(ks) if place == "prior" else n - 1
        inv = copy.deepcopy(o.invs[k])
        try:
            name, _ = c09.break_rule(rng, inv, o.specs[k])
        except Skip:
            continue
        if json.dumps(inv, sort_keys=True) == json.dumps(o.invs[k], sort_keys=True):
            continue
        ctx.sig.append(("rule", name, place))
        ctx.log("%s @ %s" % (name, place))
        done += 1
        if place == "dict":
            def run(**kw):
                log = ValidationLogger(**kw)
                return lib.ocfl.InventoryValidator(log=log, where="here").validate(inv), log
            passed, log, out = ctx.call("InventoryValidator", settings, ctx, run)
            where = "here"
            true_claims(ctx, out, truth.Claims(None, {"here": inv}))
        elif place == "file":
            f = ctx.path("inv.json")
            with open(f, "wb") as fh:
                fh.write(foreign.dump(rng, inv))

            def run(**kw):
                passed, v = lib.ocfl.Object().validate_inventory(f, **kw)
                return passed, v.log
            passed, log, out = ctx.call("validate_inventory", settings, ctx, run)
            where = "standalone"
            true_claims(ctx, out, truth.Claims(None, {"standalone": inv}))
        else:
            w = o.vdirs[k] + "/"
            if place == "object":
                foreign.rewrite_inventory(d, "inventory.json", inv, o.algs[k])
                if k not in o.missing_inv:
                    for x in ("inventory.json", "inventory.json." + o.algs[k]):
                        shutil.copy(os.path.join(d, x), os.path.join(d, w + x))
            else:
                foreign.rewrite_inventory(d, w + "inventory.json", inv, o.algs[k])
            passed, log, out = of_object(ctx, d)
            where = "root" if place == "object" else o.vdirs[k]
            shutil.rmtree(d)
            foreign.write(o, d)
        ctx.check(passed is False, "broken rule not reported: " + name, "%s", place)
        said = {v for c, vals, _ in out if c[0] == "E" for n_, v in vals if n_ in ("where", "version_dir")}
        ctx.check(where in said, "no message says which inventory breaks a rule", "%s in %s: said %s %s", name, where, sorted(said), [m[:160] for m in log.messages[:4]])
        if place == "object":
            other = {x for x in said if x in o.vdirs[:-1]}
            ctx.check(not other or any(c[:4] in ("E066", "E103", "E020", "E037", "E019", "E023", "E092", "E093", "E015", "E010", "E046", "E058") for c, _, _ in out), "message blames a prior inventory for a rule broken in the root inventory", "%s: %s", name, [m[:160] for m in log.messages[:6]])
        links = {v for c, vals, v in out if v}
        ctx.check(links <= set(o.specs) | {"1.0", "1.1"}, "link to a specification version not in use", "%s of %s", links, o.specs)
        if place in ("object", "prior") and len(set(o.specs)) == 1 and not any(c.startswith(("E036", "E038", "E033")) for c, _, _ in out):
            ctx.check(links <= set(o.specs), "link to the specification of another version than the object's", "%s of %s: %s", links, o.specs, log.messages[:2])
    if not done:
        raise Skip()


class Bench10(c10.Bench):
    def judge(self, name, k, families, warn=None, detail=""):
        ctx = self.ctx
        ctx.sig.append(("edit", name))
        ctx.count("edit: " + name)
        passed, log, out = of_object(ctx, self.d)
        if not families:
            ctx.check(passed is True, "harmless difference reported: " + name, "%s", log.messages[:2])
            return
        ctx.check(passed is False, "disagreement not reported: " + name)
        # the message names an inventory other than the root one
        ctx.check(any(re.search(r"\bv\d+\b", m) for m in log.messages if m[1] == "E"), "no message names the version that disagrees: " + name, "%s", [m[:200] for m in log.messages[:4]])


def do_disagree(ctx):
    rng = ctx.rng
    nv = rng.choice([2, 3, 4, 11])
    o = foreign.make(rng, ctx.tier, pads=foreign.WIDE, nv=nv, simple_paths=rng.random() < 0.5)
    if not set(range(nv - 1)) - o.missing_inv:
        raise Skip()
    d = ctx.path("obj")
    foreign.write(o, d)
    b = Bench10(ctx, o, d)
    for e in rng.sample(c10.EDITS, 6):
        ctx.log(e.__name__)
        e(b)
        b.restore()


def do_hostile(ctx):
    rng = ctx.rng
    d = ctx.path("o")
    o = foreign.make(rng, ctx.tier, pads=foreign.WIDE, nv=rng.choice([1, 2, 3]), simple_paths=True)
    foreign.write(o, d)
    for _ in range(rng.choice([1, 1, 2, 4])):
        what = hostile.mutate_tree(rng, d)
        ctx.log(what)
        ctx.sig.append(("hostile", what.split()[0]))
    of_object(ctx, d, lax=rng.random() < 0.3)
    v = hostile.mutate_json(rng, o.invs[-1], rng.choice([1, 2]))
    iv = lib.ocfl.InventoryValidator()
    ctx.call("InventoryValidator.validate", iv.validate, v)
    judge(ctx, iv.log, True, False, bare=True)


def do_root(ctx):
    rng = ctx.rng
    r, stop = c15.compose(ctx)
    ctx.sig.append(("root", stop, tuple(sorted(r.codes))))

    def run(log_errors, log_warnings):
        s = lib.ocfl.StorageRoot(root=r.dir, spec_version=r.expect_spec)
        passed = ctx.call("validate root", s.validate, log_errors=log_errors, log_warnings=log_warnings)
        run.last = s
        if log_errors and log_warnings:
            run.full = s
        return passed, s.log
    passed, log, out = settings(ctx, run)
    true_claims(ctx, out, truth.RootClaims(r.dir))
    for c, vals, _ in out:
        for n, v in vals:
            if n == "root":
                ctx.check(v == r.dir, "message names another root", "%s: %r", c, v)
            elif n == "path":
                ctx.check(os.path.lexists(os.path.join(r.dir, v.lstrip("/"))), "message names a path that is not there", "%s: %r", c, v)
            elif n == "entry" and c[0] == "E":
                ctx.check(os.path.lexists(os.path.join(r.dir, "extensions", os.path.basename(v))), "message names an entry that is not there", "%s: %r", c, v)
    if not stop:
        for code, p in r.places:
            ctx.check(any(c == code and any(v.lstrip("/") == p or v.endswith("/" + p) for _, v in vals) for c, vals, _ in out), "fault of the hierarchy not named by a message of its code", "%s %s: %s", code, p, log.messages)
            ctx.count("faults of roots named")
    # messages about objects
    s = run.full
    for path, text in s.errors:
        head = "[[" + path + "]]"
        ctx.check(text.startswith(head), "messages about an object do not begin with its path", "%r", text[:100])
        for line in text.split("\n" + head)[:50]:
            line = line[len(head):] if line.startswith(head) else line
            parse(ctx, line)
        _, v = lib.validate(os.path.join(r.dir, path), log_warnings=True)
        want = [re.sub(r" at .*? does not|explanation.*", "", m) for m in v.log.messages]
        ctx.check(len(text.split("\n" + head)) == len(want), "number of messages about an object differs from validating it alone", "%s: %s / %s", path, text[:300], want[:3])


def do_lang(ctx):
    """A language without descriptions falls back to English."""
    rng = ctx.rng
    d = ctx.path("obj")
    o = foreign.make(rng, ctx.tier, pads=foreign.WIDE)
    foreign.write(o, d)
    os.remove(os.path.join(d, "inventory.json." + o.algs[-1]))
    res = []
    for lang in ("en", rng.choice(["fr", "zz", "EN", ""])):
        v = lib.Validator(log_warnings=True, lang=lang)
        passed = ctx.call("validate in language", v.validate_object, d)
        judge(ctx, v.log, True, True)
        res.append((passed, v.log.messages, v.log.codes))
    ctx.check(res[0] == res[1], "messages differ in a language without descriptions", "%s", res)
    ctx.sig.append(("lang", tuple(o.features)))


def do_many(ctx):
    """Many faults of one kind: every one of them is named."""
    rng = ctx.rng
    kind = rng.choice(["extra", "stray", "root", "dirs", "empty", "gone", "changed", "prior", "prior", "deep"])
    o = foreign.make(rng, ctx.tier, nv=rng.choice([3, 4] if kind == "prior" else [1, 2, 3, 4]), simple_paths=True, features=rng.random() < 0.3,
                     extreme=kind in ("gone", "changed", "prior") and rng.random() < 0.7)
    if not any(o.content.values()):
        raise Skip()
    d = ctx.path("obj")
    foreign.write(o, d)
    n = rng.choice([2, 3, 6, 11, 26, 65, 120])
    v = rng.choice(o.vdirs)
    places = []
    names = ["q%03d" % rng.randrange(1000) + "x" * rng.choice([0, 0, 3, 100]) for _ in range(n)]
    if kind in ("gone", "changed"):
        for p in sorted(o.content):
            if kind == "gone":
                os.remove(os.path.join(d, p))
            else:
                with open(os.path.join(d, p), "ab") as fh:
                    fh.write(b"!")
            places.append(p)
    elif kind == "prior":         # the root inventory and the last version no longer list what earlier versions hold
        f = [p for p in sorted(o.content) if not p.startswith(o.vdirs[-1] + "/")]
        if not f or len(o.vdirs) < 3 or len(o.vdirs) - 2 in o.missing_inv:
            raise Skip()
        inv = copy.deepcopy(o.invs[len(o.vdirs) - 2])
        for x in list(inv["manifest"]):
            inv["manifest"][x] = ["%s/%s/zz%s" % (o.vdirs[-2], o.content_dir, x[:20])]
        inv.pop("fixity", None)
        foreign.rewrite_inventory(d, o.vdirs[-2] + "/inventory.json", inv, o.algs[len(o.vdirs) - 2])
        places = sorted({p for k in range(len(o.vdirs) - 2) if k not in o.missing_inv for ps in o.invs[k]["manifest"].values() for p in ps})
    else:
        for q in sorted(set(names)):
            rel = {"extra": "%s/%s/%s" % (v, o.content_dir, q), "stray": "%s/%s" % (v, q), "root": q, "dirs": q, "empty": "%s/%s/%s" % (v, o.content_dir, q),
                   "deep": "%s/%s/%s/b" % (v, o.content_dir, q)}[kind]
            if os.path.lexists(os.path.join(d, rel)):
                continue
            os.makedirs(os.path.join(d, rel) if kind in ("dirs", "empty") else os.path.dirname(os.path.join(d, rel)), exist_ok=True)
            if kind not in ("dirs", "empty"):
                with open(os.path.join(d, rel), "wb") as fh:
                    fh.write(b"x")
            places.append(rel if kind in ("extra", "empty", "deep", "gone") else q)
    ctx.sig.append(("many", kind, len(places)))
    passed, log, out = of_object(ctx, d)
    ctx.check(passed is False, "faults not reported", "%s %d", kind, len(places))
    text = "\n".join(m for m in log.messages if m[1] == "E" and (kind != "prior" or m.startswith("[E023b]")))
    lost = [p for p in places if p not in text]
    ctx.check(not lost, "not every fault is named by a message", "%s: %d of %d, such as %s; %s", kind, len(lost), len(places), lost[:2], log.messages[:2])
    if kind == "changed":         # wrong digests in earlier inventories: all those that record the value are named
        for c, vals, _ in out:
            val = dict(vals)
            if c in ("E092a", "E093a") and val["where"] != "root":
                want = set()
                for k in range(len(o.vdirs) - 1):
                    if k in o.missing_inv:
                        continue
                    blocks = [o.invs[k]["manifest"]] if c == "E092a" and o.algs[k] == val["digest_algorithm"] else []
                    blocks += [o.invs[k].get("fixity", {}).get(val["digest_algorithm"], {})] if c == "E093a" else []
                    if any(x.lower() == val["digest"].lower() and val["content_path"] in b[x] for b in blocks for x in b):
                        want.add(o.vdirs[k])
                ctx.check(set(val["where"].replace(" ", "").split(",")) == want, "message about a digest does not name the versions that record it", "%s: %r, recorded in %s", c, val["where"], sorted(want))
                ctx.count("versions named with wrong digests", len(want))
    ctx.count("many faults of one kind: " + kind, len(places))


def case(ctx):
    r = ctx.rng.random()
    if r < 0.25:
        do_corrupt(ctx)
    elif r < 0.50:
        do_rule(ctx)
    elif r < 0.65:
        do_disagree(ctx)
    elif r < 0.80:
        do_hostile(ctx)
    elif r < 0.93:
        do_root(ctx)
    elif r < 0.97:
        do_many(ctx)
    else:
        do_lang(ctx)
