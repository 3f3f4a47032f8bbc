"""C22: declarations identify objects and roots correctly."""
import os
import re
import zipfile

import fsspec
from fsspec.implementations.dirfs import DirFileSystem

from ocfl.namaste import Namaste, NamasteException, content_to_tvalue, find_namastes, get_namaste
from ocfl.object_utils import find_path_type

from vf import gen
from vf.common import source_dictionary
from vf.monitors import write_tree

ID = "C22"
LEVEL = "exploration"
QUICK, THOROUGH = 12000, 200000
MIN_DISTINCT = 1500
RULE = ("Generated directories (plain, in memory, in zip files) holding any mix of declaration files of several tags, look-alike names, directories with declaration names and other files; "
        "find_namastes / get_namaste, content checks after writing, editing and swapping content, and find_path_type on the directory, files in it and missing paths, compared with a model. Distinct by directory content and values.")
ASSUMPTIONS = ["values with carriage returns are left out (text mode reading changes them)"]

VALUES = ["ocfl_1.0", "ocfl_1.1", "ocfl_object_1.0", "ocfl_object_1.1", "ocfl_object_1.2", "ocfl_2.0", "ocfl_object_10.12", "ocfl_object_1", "ocfl_1", "ocfl_1.", "OCFL_1.0", "ocfl_object_1.0x", "ocfl_1.0.0",
          "xocfl_1.0", "ocfl_object1.0", "ocfl_object_1.0 ", "ocfl__1.0", "ocfl_Object_1.0", "ocfl_object_", "ocfl_", "ocfl", "", "bagit_0.97", "ocfl_object_object_1.0", "ocfl_1.0\n", "ocfl_\u0661.0",
          "ocfl_object_1.0\n", "ocfl_object_-1.0", "ocfl_object_1.0-draft", "frog", "ocfl_object_ 1.0", "ocfl_object_1.0=0", "=ocfl_1.0", "ocfl_1_0", "ocfl_object_1,1", "ocfl_object_0.9"]
TAGS = [0, 0, 0, 0, 1, 2, 4, 10, 100]


def model_tvalue(content):
    s = content.strip()[:40]
    return "".join(c if c.isalnum() or c in "_.-:" else "_" for c in s)


def names(rng):
    """[(name, is directory)] of a directory."""
    out = {}
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 5, 12])):
        r = rng.random()
        if r < 0.72:
            n = "%s=%s" % (rng.choice(TAGS), rng.choice(VALUES))
        elif r < 0.82:
            n = rng.choice(["00=ocfl_1.0", "0 =ocfl_1.0", "O=ocfl_1.0", "0ocfl_1.0", "=ocfl_1.0", " 0=ocfl_1.0", "0-ocfl_object_1.0", "10=ocfl_1.0", "x0=ocfl_object_1.0", "0==ocfl_1.0", "0=ocfl_1.0.bak", ".0=ocfl_1.0"])
        else:
            n = gen.segment(rng)
        if len(n.encode("utf8")) < 200:
            out[n] = rng.random() < 0.15
    return sorted(out.items())


def declared(rng, n):
    v = n.split("=", 1)[1] if "=" in n else n
    r = rng.random()
    if r < 0.6:
        return v + "\n"
    if r < 0.7:
        return v
    return rng.choice(["", "\n", "other\n", v + "x\n", "  " + v + " \n\n", v.upper() + "\n", v.replace("1.0", "1.1") + "\n", v + "\nsecond line\n", v[:-1] + "\n"])


def model_type(entries):
    for n, isdir in entries:
        if n.startswith("0=") and not isdir:
            m = re.fullmatch(r"ocfl(_object)?_[0-9]+\.[0-9]+", n[2:])
            if m:
                return "object" if m[1] else "root"
    return None


class Place:
    """A directory on some file system."""

    def __init__(self, ctx, kind, entries, contents):
        self.kind, self.ctx = kind, ctx
        sub = {}
        for n, isdir in entries:
            if isdir:
                sub[n + "/inside"] = b"x"
            else:
                sub[n] = contents[n].encode("utf8")
        self.dir, self.fsw = "", None
        if kind in ("os", "dirfs", "dirfs-sub"):
            self.path = ctx.path("d")
            os.makedirs(self.path)
            write_tree(self.path, sub)
            if kind == "os":
                self.dir = self.path
            elif kind == "dirfs":
                self.fsw = DirFileSystem(self.path, fsspec.filesystem("file"))
            else:
                self.dir, self.fsw = "d", DirFileSystem(ctx.dir, fsspec.filesystem("file"))
        elif kind == "memory":
            fs = fsspec.filesystem("memory")
            root = "/c22-%d" % ctx.index
            if fs.exists(root):
                fs.rm(root, recursive=True)
            fs.makedirs(root)
            for n, c in sub.items():
                if "/" in n:
                    fs.makedirs(root + "/" + n.rsplit("/", 1)[0], exist_ok=True)
                fs.pipe_file(root + "/" + n, c)
            self.fsw = DirFileSystem(root, fs)
            self.path = "memory:/" + root
            self.clean = lambda: fs.rm(root, recursive=True)
        else:
            zn = ctx.path("d.zip")
            with zipfile.ZipFile(zn, "w") as z:
                for n, c in sub.items():
                    z.writestr(n, c)
            self.path = "zip://" + zn
            self.fsw = fsspec.filesystem("zip", fo=zn)

    def close(self):
        if self.kind == "memory":
            self.clean()


def content_value(rng):
    r = rng.random()
    if r < 0.4:
        return rng.choice(VALUES)
    if r < 0.6:
        return rng.choice(["a" * 39, "a" * 40, "a" * 41, "\u00e9" * 45, " " * 50 + "x", "x" + " " * 60 + "y", "a b\tc", "0!@#$%^&*()\\/1", "n\nl", "\n", " \t ", "\u6587\u4ef6", "a:b", "a/b/../c", "\u00a0x\u00a0", "-", ".", "..", "a" * 38 + " b c", "\u0661\u00b2\u2460"])
    if r < 0.8:
        s = [x for x in source_dictionary()[0] if "\r" not in x and "\0" not in x]
        return rng.choice(s) if s else "dict"
    return "".join(rng.choice("abz019_.-: /\\\n\t\u00e9\u6587!=") for _ in range(rng.choice([1, 3, 10, 40, 45])))


def declarations(ctx, rng):
    """Write, find and check single declarations."""
    v, d = content_value(rng), rng.choice(TAGS)
    where = rng.choice(["os", "dirfs", "memory"])
    os.makedirs(ctx.path("w/sub"))
    if where == "os":
        kw, rd = {"dir": ctx.path("w")}, None
    elif where == "dirfs":
        kw = {"fsw": DirFileSystem(ctx.path("w"), fsspec.filesystem("file"))}
        if rng.random() < 0.4:
            kw["dir"] = "sub"
    else:
        fs = fsspec.filesystem("memory")
        root = "/c22w-%d" % ctx.index
        if fs.exists(root):
            fs.rm(root, recursive=True)
        fs.makedirs(root)
        kw = {"fsw": DirFileSystem(root, fs)}
    tv = model_tvalue(v)
    ctx.check(ctx.call("content_to_tvalue", content_to_tvalue, v) == tv, "tvalue wrong", "%r gave %r, expected %r", v, content_to_tvalue(v), tv)
    n = Namaste(d, v)
    ctx.check(n.filename == "%s=%s" % (d, tv) and n.tvalue == tv, "declaration file name wrong", "%r: %r", v, n.filename)
    ctx.check(not n.content_ok(**kw), "declaration that was not written passes", "%r", v)
    ctx.call("write", n.write, **kw)
    if tv:
        ctx.call("check_content", n.check_content, **kw)
        ctx.check(n.content_ok(**kw), "declaration just written fails its check", "%r", v)
    else:
        ctx.refused("check_content of empty declaration", NamasteException, n.check_content, **kw)
    found = ctx.call("find_namastes", find_namastes, d, **kw)
    ctx.check([(f.d, f.tvalue, f.filename) for f in found] == [(d, tv, n.filename)], "declaration written is not found", "%r: %s", v, [f.filename for f in found])
    if "fsw" not in kw:
        ctx.check(ctx.call("get_namaste", get_namaste, d, kw["dir"]).tvalue == tv, "get_namaste wrong", "%r", v)
        ctx.refused("get_namaste for another tag", NamasteException, get_namaste, d + 7, kw["dir"])
    # A found declaration passes exactly while its content corresponds
    f = found[0]
    full = os.path.join(kw.get("dir", ""), n.filename)

    def put(c):
        if "fsw" in kw:
            kw["fsw"].pipe_file(full, c)
        else:
            with open(full, "wb") as fh:
                fh.write(c)
    for _ in range(4):
        s = rng.choice([v, v + "\n\n", " " + v, v + "x", "x" + v, v[:-1], v[1:], v.swapcase(), v + " y", "", v[:40] + "more", v.replace("1.0", "1.1"), v.replace("_", "-"), "\ufeff" + v, content_value(rng)])
        put(s.encode("utf8"))
        want = bool(tv) and model_tvalue(s) == tv
        ctx.check(ctx.call("content_ok", f.content_ok, **kw) == want, "content check wrong", "tvalue %r content %r expected %s", tv, s, want)
        try:
            f.check_content(**kw)
            ok = True
        except NamasteException:
            ok = False
        ctx.check(ok == want, "check_content disagrees with content_ok", "%r", s)
        ctx.count("content " + ("corresponds" if want else "does not correspond"))
    put(rng.choice([b"\xff\xfe\x00", v.encode("utf8") + b"\xff\n", b"\x80"]))
    ctx.check(not ctx.call("content_ok of unreadable", f.content_ok, **kw), "undecodable declaration passes", "%r", v)
    if where == "memory":
        fs.rm(root, recursive=True)
    ctx.note("value", v[:50], d, where)


def case(ctx):
    rng = ctx.rng
    entries = names(rng)
    contents = {n: declared(rng, n) for n, isdir in entries if not isdir}
    kind = rng.choice(["os", "os", "os", "dirfs", "dirfs-sub", "memory", "zip"])
    if kind == "memory" or kind == "zip":
        entries = [(n, i) for n, i in entries if "\\" not in n and "\n" not in n and not n.startswith(("/", " ")) and n == n.strip() and "::" not in n]
        if not entries:
            entries = [("0=ocfl_1.0", False)]
            contents["0=ocfl_1.0"] = "ocfl_1.0\n"
    p = Place(ctx, kind, entries, contents)
    ctx.note(kind, tuple(entries))
    try:
        for d in (0, rng.choice([1, 2, 4, 10, 3])):
            want = [n for n, isdir in entries if n.startswith("%d=" % d) and not isdir]
            got = ctx.call("find_namastes", find_namastes, d, p.dir, p.fsw, limit=10 ** 6)
            ctx.check([f.filename for f in got] == want, "declarations found wrong", "tag %d: %s, expected %s", d, [f.filename for f in got], want)
            for f in got:
                if "\r" in contents[f.filename]:
                    continue
                ok = bool(f.tvalue) and model_tvalue(contents[f.filename]) == f.tvalue
                ctx.check(ctx.call("content_ok", f.content_ok, p.dir, p.fsw) == ok, "content check wrong", "%r with %r expected %s", f.filename, contents[f.filename], ok)
            lim = rng.choice([0, 1, 2, len(want), 10])
            if len(want) > lim:
                ctx.refused("more declarations than the limit", NamasteException, find_namastes, d, p.dir, p.fsw, limit=lim)
            else:
                ctx.check(len(ctx.call("find_namastes", find_namastes, d, p.dir, p.fsw, limit=lim)) == len(want), "limit changes result")
            if p.fsw is None:
                if len(want) == 1:
                    ctx.check(ctx.call("get_namaste", get_namaste, d, p.dir).filename == want[0], "get_namaste wrong")
                else:
                    ctx.refused("get_namaste with %s" % ("none" if not want else "several"), NamasteException, get_namaste, d, p.dir)
        want = model_type(entries)
        for path in {p.path, p.path + "/" if kind != "zip" else p.path}:
            got = ctx.call("find_path_type", find_path_type, path)
            ctx.check(got == want if want else got not in ("root", "object", "file"), "path classified wrong", "%s, expected %s: %s", got, want, entries)
        ctx.count("type %s" % (want or "none"))
        if kind in ("os", "dirfs"):
            here = rng.random() < 0.4
            if here:
                os.chdir(p.path)
            got = ctx.call("find_path_type", find_path_type, "." if here else p.path)
            ctx.check(got == want if want else got not in ("root", "object", "file"), "current directory classified wrong", "%s, expected %s", got, want)
            for n, isdir in entries[:6]:
                if n != n.strip() or "::" in n or n.startswith("~"):
                    continue
                q = n if here and not n.startswith(("-", "~")) and ":" not in n else os.path.join(p.path, n)
                got = ctx.call("find_path_type of entry", find_path_type, q)
                if isdir:
                    ctx.check(got not in ("root", "object", "file"), "plain directory classified as %s" % got, "%s", q)
                else:
                    ctx.check(got == "file", "file not classified as file", "%s: %s", q, got)
            miss = os.path.join(p.path, rng.choice(["missing", "0=missing", "no/where", "a/b/c"]))
            if not os.path.exists(miss):
                got = ctx.call("find_path_type of missing path", find_path_type, miss)
                ctx.check(got not in ("root", "object", "file"), "missing path classified as %s" % got, "%s", miss)
    finally:
        os.chdir(ctx.dir)
        p.close()
    declarations(ctx, rng)
