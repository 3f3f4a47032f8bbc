"""Histories of writes performed through the library, with the ground truth they must lead to."""
import copy
import os
import shutil
import zipfile

import fsspec

from . import gen, lib
from .monitors import write_tree

ocfl = lib.ocfl


def memory():
    return fsspec.filesystem("memory")


def memory_tree(url):
    """{path: bytes} of everything below a memory:// URL (read from the store itself)."""
    pre = "/" + url.split("://", 1)[1].strip("/") + "/"
    return {k[len(pre):]: v.getvalue() for k, v in memory().store.items() if k.startswith(pre)}


class Step:
    """One write operation and what must hold after it."""

    kind = ""            # create | build | update kinds
    n = 0                # versions after the step
    new_version = True   # the step adds a version
    opts = None          # Object settings used
    src = None           # source directory/url
    meta_obj = None      # VersionMetadata passed in (or None)
    copies = True        # storage model applies (whole source added)


class Session:
    """Carries out a random history. States and metas describe every version written so far."""

    def __init__(self, ctx, cfg=None, big=None, odd=0.35, max_v=None, nv=None, mem=False):
        rng = ctx.rng
        self.url = None
        if mem:        # the object lives in the memory file system; .dir mirrors it after every step
            self.bucket = "vf-%d-%d" % (os.getpid(), ctx.index)
            memory().makedirs("/" + self.bucket, exist_ok=True)
            self.url = "memory://%s/%s" % (self.bucket, rng.choice(["obj", "a b", "o.x"]))
        self.ctx, self.rng = ctx, rng
        self.cfg = cfg or gen.config(rng)
        self.pool = gen.Pool(rng, big=rng.random() < 0.06 if big is None else big)
        self.odd = odd
        self.id = gen.object_id(rng)
        self.dir = ctx.path("obj")
        self.nv = nv or gen.n_versions(rng, ctx.tier)
        if max_v:
            self.nv = min(self.nv, max_v)
        self.states, self.metas, self.stored = [], [], []
        self.algs = []
        self.fixity = set()
        self.alg = self.cfg["digest_algorithm"]
        self.spec = self.cfg["spec_version"]
        self.returned = None

    # -- helpers
    def meta(self):
        r = self.rng.random()
        if r < 0.08:
            return None, {"created": None, "message": None, "name": None, "address": None}
        m = gen.meta(self.rng)
        if r < 0.13:
            m["created"] = None
        return lib.vmeta(m), m

    def source(self, state, name, allow_zip=True):
        """Write state as a source directory; returns what to pass as srcdir."""
        d = self.ctx.path(name)
        shutil.rmtree(d, ignore_errors=True)
        r = self.rng.random()
        if allow_zip and r < 0.05 and state and all(ord(c) > 31 and c != "\\" for p in state for c in p):
            z = d + ".zip"
            with zipfile.ZipFile(z, "w") as zf:
                for p in sorted(state):
                    zf.writestr(p, state[p])
            self.ctx.count("source zip")
            return "zip://" + z
        if allow_zip and self.url and r < 0.4:
            self.ctx.count("source memory")
            for p in state:
                with memory().open("/%s/%s/%s" % (self.bucket, name, p), "wb") as fh:
                    fh.write(state[p])
            memory().makedirs("/%s/%s" % (self.bucket, name), exist_ok=True)
            return "memory://%s/%s" % (self.bucket, name)
        write_tree(d, state)
        if r > 0.9:
            e = os.path.join(d, "an-empty-dir")
            if not os.path.lexists(e):
                os.makedirs(e)
        if r > 0.97:
            self.ctx.count("source relative path")
            os.chdir(self.ctx.dir)
            return name
        return d

    def objdir(self):
        if self.url:
            return self.url
        if self.rng.random() < 0.05:
            os.chdir(self.ctx.dir)
            return "obj"
        return self.dir + ("/" if self.rng.random() < 0.02 and os.path.isdir(self.dir) else "")

    def settings(self, first):
        c = dict(self.cfg)
        if not first:
            r = self.rng
            c["digest_algorithm"] = self.alg if r.random() < 0.88 else r.choice(["sha512", "sha256"])
            c["fixity"] = None
            x = r.random()
            if x < 0.08:
                c["fixity"] = r.sample(gen.FIXITY, r.choice([0, 1, 2]))
            elif x < 0.12:
                c["fixity"] = sorted(self.fixity)
            if r.random() < 0.25:
                c["forward_delta"], c["dedupe"] = r.random() < 0.5, r.random() < 0.5
            if r.random() < 0.15:
                c["content_path_normalization"] = r.choice(["uri", "md5", None])
            c["spec_version"] = r.choice([self.spec, self.spec, "1.1", "1.0"])
            c["content_directory"] = r.choice([c["content_directory"], "content", "data"])
        return c

    def obj(self, opts, identifier=None, **kw):
        return ocfl.Object(identifier=identifier, **opts, **kw)

    # -- model bookkeeping
    def add_model(self, state, meta, opts, copies=True):
        self.states.append(dict(state))
        self.metas.append(meta)
        new = {}
        prev = set(c for st in self.states[:-1] for c in st.values())
        if copies:
            for c in set(state.values()):
                k = sum(1 for x in state.values() if x == c)
                if c in prev and opts["forward_delta"]:
                    new[c] = 0
                else:
                    new[c] = 1 if opts["dedupe"] else k
        self.stored.append(new if copies else None)

    def fixity_model(self, opts):
        if opts["digest_algorithm"] != self.alg:
            if opts["fixity"] is None:
                self.fixity.add(self.alg)
            self.alg = opts["digest_algorithm"]
        if opts["fixity"] is not None:
            self.fixity = set(opts["fixity"])

    # -- steps
    def first(self):
        """Generator-free first step: create or build."""
        rng, ctx = self.rng, self.ctx
        st = Step()
        st.opts = self.settings(True)
        self.fixity = set(st.opts["fixity"] or [])
        st.before = None
        if rng.random() < 0.5 or self.nv == 1 and rng.random() < 0.6:
            st.kind = "create"
            state = gen.tree(rng, self.pool, odd=self.odd)
            st.meta_obj, m = self.meta()
            st.src = self.source(state, "src1")
            st.meta_before = copy.deepcopy(vars(st.meta_obj)) if st.meta_obj else None
            o = self.obj(st.opts, self.id)
            target = self.objdir()
            st.run = lambda: o.create(srcdir=st.src, metadata=st.meta_obj, objdir=target)
            states, metas = [state], [m]
        else:
            st.kind = "build"
            k = rng.randrange(1, self.nv + 1) if self.nv < 6 else rng.choice([self.nv, self.nv, 2])
            states, metas, mobjs = [gen.tree(rng, self.pool, odd=self.odd)], [], {}
            while len(states) < k:
                states.append(gen.evolve(rng, states[-1], self.pool, self.odd))
            files = {}
            d = ctx.path("src1")
            shutil.rmtree(d, ignore_errors=True)
            for i, s in enumerate(states):
                os.makedirs(os.path.join(d, "v%d" % (i + 1)))
                for p, b in s.items():
                    files["v%d/%s" % (i + 1, p)] = b
                mo, m = self.meta()
                metas.append(m)
                if mo is not None:
                    mobjs[i + 1] = mo
            write_tree(d, files)
            if rng.random() < 0.2:
                with open(os.path.join(d, "not-a-version.txt"), "w") as fh:
                    fh.write("ignored")
                os.makedirs(os.path.join(d, "notes"))
            st.src, st.meta_obj = d, mobjs
            st.meta_before = {k: copy.deepcopy(vars(v)) for k, v in mobjs.items()}
            o = self.obj(st.opts, self.id)
            target = self.objdir()
            st.run = lambda: o.build(srcdir=st.src, versions_metadata=mobjs if mobjs or rng.random() < 0.5 else None, objdir=target)
        for s, m in zip(states, metas):
            self.add_model(s, m, st.opts)
            self.algs.append(self.alg)
        st.n = len(self.states)
        return st

    def update(self):
        """Next update step."""
        rng, ctx = self.rng, self.ctx
        st = Step()
        st.opts = self.settings(False)
        prev = self.states[-1]
        state = gen.evolve(rng, prev, self.pool, self.odd)
        mo, m = self.meta()
        st.meta_obj = mo
        st.meta_before = copy.deepcopy(vars(mo)) if mo else None
        name = "src%d" % (len(self.states) + 1)
        kind = rng.choice(["content", "content", "content", "open", "stage", "stage-setters", "edit", "edit", "metadata", "if-different"])
        st.kind = kind
        target = self.objdir()
        o = self.obj(st.opts)
        copies = True
        new_version = True
        if kind in ("content", "if-different"):
            st.src = self.source(state, name)
            kw = {"abort_if_no_difference": True} if kind == "if-different" else {}
            st.run = lambda: o.add_version_with_content(objdir=target, srcdir=st.src, metadata=mo, **kw)
            if kind == "if-different" and state == prev:
                new_version = False
        elif kind == "open":
            st.src = self.source(state, name)

            def run_open():
                o2 = self.obj(st.opts, path=target)
                return o2.add_version_with_content(srcdir=st.src, metadata=mo)
            st.run = run_open
        elif kind in ("stage", "stage-setters"):
            st.src = self.source(state, name)

            def run_stage():
                nv = o.start_new_version(objdir=target, srcdir=st.src, digest_algorithm=st.opts["digest_algorithm"], fixity=st.opts["fixity"],
                                         metadata=mo if kind == "stage" else None, carry_content_forward=False)
                if kind == "stage-setters":
                    if m["created"] is not None:
                        nv.created = m["created"]
                    if m["message"] is not None:
                        nv.message = m["message"]
                    if m["name"] is not None:
                        nv.user_name = m["name"]
                    if m["address"] is not None:
                        nv.user_address = m["address"]
                nv.add_from_srcdir()
                return o.write_new_version(nv)
            st.run = run_stage
        elif kind == "metadata":
            state = dict(prev)
            st.run = lambda: o.add_version_with_content(objdir=target, srcdir=None, metadata=mo)
            copies = False
        else:
            copies = False
            dels = [p for p in prev if p not in state or state[p] != prev[p]]
            adds = [p for p in state if p not in prev or state[p] != prev[p]]
            names = {}
            for i, p in enumerate(adds):
                names[p] = rng.choice([p, "f%d" % i, "d/f%d" % i])
            if len(set(names.values())) != len(names) or any(gen.conflict(x, [y for y in names.values() if y != x]) for x in names.values()):
                names = {p: "f%d" % i for i, p in enumerate(adds)}
            st.src = self.source({names[p]: state[p] for p in adds}, name, allow_zip=False)
            rng.shuffle(adds)
            explicit = {p: rng.random() < 0.3 for p in adds}

            def run_edit():
                nv = o.start_new_version(objdir=target, srcdir=st.src, digest_algorithm=st.opts["digest_algorithm"], fixity=st.opts["fixity"], metadata=mo)
                for p in dels:
                    nv.delete(p)
                for i, p in enumerate(adds):
                    cp = "%s/%s/explicit-%d" % (nv.inventory.head, nv.content_directory, i) if explicit[p] else None
                    nv.add(names[p], p, cp)
                return o.write_new_version(nv)
            st.run = run_edit
        if new_version:
            self.fixity_model(st.opts)
            self.add_model(state, m, st.opts, copies)
            self.algs.append(self.alg)
        st.n = len(self.states)
        st.new_version = new_version
        st.copies = copies
        return st

    def mirrored(self, st):
        """Have the step copy the object from memory to .dir when it is done."""
        if self.url:
            run = st.run

            def run_and_mirror():
                try:
                    return run()
                finally:
                    shutil.rmtree(self.dir, ignore_errors=True)
                    write_tree(self.dir, memory_tree(self.url))
            st.run = run_and_mirror
        return st

    def steps(self):
        yield self.mirrored(self.first())
        extra = 0
        while len(self.states) < self.nv and extra < 40:
            extra += 1
            yield self.mirrored(self.update())

    def close(self):
        if self.url:
            memory().rm("/" + self.bucket, recursive=True)

    def describe(self):
        c = self.cfg
        return "%s v%d %s" % ("/".join("%s=%s" % (k[:4], v) for k, v in sorted(c.items())), len(self.states), self.id[:30])
