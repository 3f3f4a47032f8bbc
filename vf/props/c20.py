"""C20: timestamps convert to the same instant and bad ones are refused."""
import calendar
import datetime
import json
import math
import os
import re
import time
from fractions import Fraction

from ocfl.inventory_validator import InventoryValidator
from ocfl.w3c_datetime import datetime_to_str, str_to_datetime

try:
    from ocfl.w3c_datetime import datestamp_now
except ImportError:
    datestamp_now = None

from vf import gen, lib, oracle
from vf.monitors import write_tree

ID = "C20"
LEVEL = "exploration"
QUICK, THOROUGH = 2400, 60000
MIN_DISTINCT = 1000
RULE = ("Per case about forty timestamp strings (every form of the format, any date including leap years and month ends, any fraction length, any zone offset) and forty near misses (character edits, "
        "foreign digits, line ends, values out of range, wrong separators), parsed and compared with a separately written exact parser; about forty times formatted and read back, all under a random "
        "process time zone; validation of an inventory with the string as its created date; and the current time as written by the library. Distinct by the strings tried.")

ZONES = ["UTC", "America/New_York", "Asia/Kolkata", "Pacific/Auckland", "EST5EDT", "XYZ-13:30", "ABC+11"]


def expect(s):
    """(True, exact seconds) for a supported string, (False, None) if not, (None, None) if unsure."""
    m = re.fullmatch(r"([0-9]{4})(?:-([0-9]{2})(?:-([0-9]{2})(?:T([0-9]{2}):([0-9]{2})(?::([0-9]{2})(?:\.([0-9]+))?)?(Z|[+-][0-9]{2}:[0-9]{2})?)?)?)?", s)
    if not m:
        return False, None
    y, mo, d, h, mi, sec = [int(m[k]) if m[k] else None for k in range(1, 7)]
    if y == 0:
        return None, None
    try:
        dt = datetime.datetime(y, mo or 1 if mo != 0 else 0, d or 1 if d != 0 else 0, h or 0, mi or 0, sec or 0)
    except ValueError:
        return False, None
    t = Fraction(calendar.timegm(dt.timetuple()))
    if m[7]:
        t += Fraction(int(m[7]), 10 ** len(m[7]))
    z = m[8]
    if z and z != "Z":
        hh, mm = int(z[1:3]), int(z[4:6])
        if hh > 23 or mm > 59:
            return False, None
        t += (1 if z[0] == "+" else -1) * (hh * 3600 + mm * 60)   # sign as existing users and tests have it
    return True, t


def a_date(rng):
    y = rng.choice([1970, 2000, 1999, 2024, 2100, 1900, 1, 4, 9999, 2038]) if rng.random() < 0.4 else rng.randrange(1, 10000)
    mo = rng.randrange(1, 13)
    last = calendar.monthrange(y, mo)[1]
    return y, mo, rng.choice([1, last, rng.randrange(1, last + 1)])


def good(rng):
    y, mo, d = a_date(rng)
    r = rng.random()
    if r < 0.06:
        return "%04d" % y
    if r < 0.12:
        return "%04d-%02d" % (y, mo)
    s = "%04d-%02d-%02d" % (y, mo, d)
    if r < 0.2:
        return s
    s += "T%02d:%02d" % (rng.choice([0, 23, 12, rng.randrange(24)]), rng.choice([0, 59, rng.randrange(60)]))
    if r > 0.3:
        s += ":%02d" % rng.choice([0, 59, rng.randrange(60)])
        if rng.random() < 0.6:
            k = rng.choice([1, 2, 3, 4, 5, 6, 6, 7, 9, 12, 20, 40])
            s += "." + rng.choice(["".join(rng.choice("0123456789") for _ in range(k)), "0" * k, "9" * k, "0" * (k - 1) + "1", "5" + "0" * (k - 1)])
    z = rng.random()
    if z < 0.4:
        return s + "Z"
    if z < 0.9:
        return s + rng.choice("+-") + "%02d:%02d" % (rng.choice([0, 1, 5, 11, 12, 14, 23, rng.randrange(24)]), rng.choice([0, 0, 30, 45, 59, rng.randrange(60)]))
    return s


FOREIGN = ["\u0660", "\u0661", "\uff12", "\u0968", "\U0001d7d8", "\u00b2"]


def near(rng):
    s = good(rng)
    k = rng.randrange(12)
    i = rng.randrange(len(s))
    if k == 0:
        return s[:i] + s[i + 1:]
    if k == 1:
        return s[:i] + rng.choice("0123456789:-+.TZtz ,/x\n\t\0") + s[i:]
    if k == 2:
        return s[:i] + rng.choice("0123456789:-+.TZtz ,/x\n") + s[i + 1:]
    if k == 3:
        ds = [j for j, c in enumerate(s) if c.isdigit()]
        j = rng.choice(ds)
        return s[:j] + rng.choice(FOREIGN) + s[j + 1:]
    if k == 4:
        return s + rng.choice(["\n", " ", "\r\n", "Z", "+00:00", "+0", ".", "x", "\0", "\u2028", "z", "[UTC]", " UTC", "\n\n"])
    if k == 5:
        return rng.choice([" ", "\n", "+", "-", "0", "x", "\ufeff", "T"]) + s
    if k == 6:   # values that do not exist
        return rng.choice(["%04d-%02d-%02dT%02d:%02d:%02dZ" % (rng.randrange(1, 10000), rng.choice([0, 13, 99, rng.randrange(1, 13)]), rng.choice([0, 29, 30, 31, 32]), rng.choice([0, 24, 25]),
                                                                  rng.choice([0, 60, 59]), rng.choice([0, 60, 61, 59])),
                           "%04d-02-29" % rng.randrange(1, 10000), "%04d-02-30" % rng.randrange(1, 10000), "%04d-%02d-31T00:00:00Z" % (rng.randrange(1, 10000), rng.choice([2, 4, 6, 9, 11])),
                           "%04d-%02d" % (rng.randrange(1, 10000), rng.choice([0, 13]))])
    if k == 7:   # offsets
        return re.sub(r"(Z|[+-]\d\d:\d\d)?$", lambda m: rng.choice(["+24:00", "-24:00", "+00:60", "+99:99", "+1:00", "+0100", "+01", "+01:0", "+-1:00", " +01:00", "++01:00", "UTC", "z", "+01:00:00", "+00:00Z", "Z+00:00", "\u221201:00"]), s, count=1)
    if k == 8:
        return s.replace("T", rng.choice(["t", " ", "", "_", "TT", "T "]))
    if k == 9:
        return s.replace("-", rng.choice(["", "/", ".", "\u2010", " "]), rng.choice([1, 2])) or "-"
    if k == 10:
        return s.replace(".", rng.choice([",", "..", ":", ""])).replace(":", rng.choice([":", ".", ""]), 1)
    return rng.choice(["", "now", "today", "0", "12", "123", "12345", "1e3", "-2020", "2020-W01", "2020-001", "20200101", "20200101T000000Z", "2020-1-1", "2020-01-1T00:00:00Z", "Jan 1 2020", "2020-01-01T",
                       "2020-01-01T00", "2020-01-01T00Z", "2020-01-01Z", "2020Z", "2020-01-01+00:00", "2020-01-01T00:00:00.Z", "2020-01-01T00:00.5Z", "2020-01-01T.5Z", "10000-01-01", "2020-01-01T00:00:00-",
                       "2020-01-01T00:00:0.5Z", "2020-01-01T00:00:00.5.5Z", "2020-01-01T00:00:00Z2020-01-01T00:00:00Z", "x2020-01-01T00:00:00Z.5", "2020-01-01T00:00:00.5"[:-1]])


def ulp(x):
    return math.ulp(float(x)) if x else 2 ** -60


INV = {"id": "http://example.org/x", "type": "https://ocfl.io/1.1/spec/#inventory", "digestAlgorithm": "sha512", "head": "v1", "manifest": {},
       "versions": {"v1": {"created": None, "message": "m", "user": {"name": "n", "address": "mailto:a@example.org"}, "state": {}}}}


def case(ctx):
    rng = ctx.rng
    zone = rng.choice(ZONES)
    old = os.environ.get("TZ")
    os.environ["TZ"] = zone
    time.tzset()
    try:
        body(ctx, rng, zone)
    finally:
        if old is None:
            os.environ.pop("TZ", None)
        else:
            os.environ["TZ"] = old
        time.tzset()


def body(ctx, rng, zone):
    strings = [good(rng) for _ in range(40)] + [near(rng) for _ in range(40)]
    ctx.note("strings", hash_of(strings))
    ctx.count("zone " + zone)
    for s in strings:
        ok, t = expect(s)
        if ok is None:
            continue
        ctx.stats["calls"] += 1
        ctx.count("string accepted" if ok else "string refused")
        try:
            got = str_to_datetime(s)
        except ValueError as e:
            ctx.check(not ok, "timestamp refused", "%r: %s", s, e)
        except Exception as e:  # pylint: disable=broad-except
            ctx.fail("timestamp raises %s" % type(e).__name__, "%r: %s" % (s, e))
        else:
            ctx.check(ok, "bad timestamp accepted", "%r gave %r", s, got)
            ctx.check(isinstance(got, (int, float)) and abs(Fraction(got) - t) <= Fraction(2 * max(ulp(got), ulp(t))), "timestamp read as another instant", "%r gave %r, expected %r", s, got, float(t))
    # Validation uses the format for the created date of a version
    for s in rng.sample(strings, 6):
        ok = oracle.created_ok(s)
        if ok is None or s.startswith("0000"):
            continue
        inv = json.loads(json.dumps(INV))
        inv["versions"]["v1"]["created"] = s
        iv = InventoryValidator()
        ctx.call("InventoryValidator.validate", iv.validate, inv)
        errs = sorted(c for c in iv.log.codes if c.startswith("E"))
        ctx.check((not errs) == ok, "created date wrongly " + ("refused" if ok else "accepted") + " by validation", "%r: %s", s, errs)
    # Formatting
    for _ in range(40):
        r = rng.random()
        if r < 0.3:
            t = rng.randrange(-62135596800, 253402300800)
        elif r < 0.6:
            t = rng.randrange(0, 2 ** 32) + rng.choice([rng.randrange(10 ** 6) / 1e6, rng.randrange(1000) / 1e3, 0.999999, 0.000001, 0.5, 0.999999 - 1e-6])
        elif r < 0.8:
            t = rng.uniform(0, 2 ** 32)
        elif r < 0.9:
            t = rng.choice([0, 0.0, 1, -1, -0.5, 0.9999996, 951782400, 951868800, 2 ** 31 - 1, 2 ** 31, 1e9, 59.999999, 3599.9999999, 86399.999999])
        else:
            t = rng.uniform(-2 ** 31, 0)
        s = ctx.call("datetime_to_str", datetime_to_str, t)
        ok, back = expect(s) if isinstance(s, str) else (False, None)
        ctx.check(ok and re.fullmatch(r"[0-9]{4}-[0-9]{2}-[0-9]{2}T[0-9]{2}:[0-9]{2}:[0-9]{2}(\.[0-9]+)?Z", s), "formatted time is not in the format", "%r gave %r", t, s)
        tol = Fraction(7, 10 ** 7) + Fraction(2 * ulp(t))
        ctx.check(abs(back - Fraction(t)) <= tol, "formatted time is another instant", "%r gave %r", t, s)
        again = ctx.call("str_to_datetime", str_to_datetime, s)
        ctx.check(abs(Fraction(again) - Fraction(t)) <= tol, "formatting and reading changes the time", "%r gave %r then %r", t, s, again)
        if isinstance(t, int) or float(t).is_integer():
            ctx.check("." not in s and again == t, "whole second changed", "%r gave %r", t, s)
        elif 0 <= t < 2 ** 32:
            s2 = ctx.call("datetime_to_str again", datetime_to_str, again)
            ctx.check(s2 == s, "formatting is not stable", "%r gave %r then %r", t, s, s2)
        if t >= 0:
            w = ctx.call("datetime_to_str without fraction", datetime_to_str, t, no_fractions=True)
            ctx.check(w == datetime.datetime(1970, 1, 1).__add__(datetime.timedelta(seconds=int(t))).isoformat() + "Z", "time without fraction wrong", "%r gave %r", t, w)
    # Now
    lo = time.time()
    md = lib.VersionMetadata()
    made = [("datetime_to_str()", datetime_to_str()), ("as_dict", md.as_dict()["created"]), ("now", datetime_to_str("now")), ("no fractions", datetime_to_str(no_fractions=True))]
    if datestamp_now is not None:
        made.append(("datestamp_now", datestamp_now()))
    if rng.random() < 0.25:
        write_tree(ctx.path("src"), {"f": b"x"})
        obj = lib.ocfl.Object(identifier="x")
        lib_inv = ctx.call("create", obj.create, srcdir=ctx.path("src"), objdir=ctx.path("obj"), metadata=md)
        made.append(("create", lib_inv.data["versions"]["v1"]["created"]))
        lib_inv = ctx.call("update", lib.ocfl.Object().add_version_with_content, objdir=ctx.path("obj"), metadata=lib.VersionMetadata(message="m"))
        made.append(("update", lib_inv.data["versions"]["v2"]["created"]))
        lib_inv = ctx.call("update without metadata", lib.ocfl.Object().add_version_with_content, objdir=ctx.path("obj"))
        made.append(("update without metadata", lib_inv.data["versions"]["v3"]["created"]))
        passed, v = lib.validate(ctx.path("obj"))
        ctx.check(passed, "object with the current time is not valid", "%s", v)
    hi = time.time()
    for what, s in made:
        ok, t = expect(s)
        ctx.check(ok and lo - 1.001 <= float(t) <= hi + 0.001, "current time wrong: " + what, "%r, clock %r", s, datetime.datetime.fromtimestamp(lo, datetime.timezone.utc).isoformat())
        ctx.check(oracle.created_ok(s) is True, "current time not in the created format: " + what, "%r", s)


def hash_of(strings):
    import hashlib
    return hashlib.sha1(repr(strings).encode("utf8")).hexdigest()[:12]
