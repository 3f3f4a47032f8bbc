#!/usr/bin/env python3
"""Mutation survey: which small changes of the library does no check notice?

usage: mutate.py OUT.jsonl [--files a.py,b.py] [--sample N] [--seed S] [--cap SECONDS] [--jobs N]
Not a registered check; used to find holes in the checks (see DESIGN.md). Works on copies under /dev/shm.
"""
import argparse
import ast
import concurrent.futures
import copy
import json
import os
import random
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PLANT_REPO", "/repo")
PY = "/opt/venv/bin/python"
FIRST = {
    "object.py": "C01 C02 C05 C06 C03 C24 C23 C04 C21 C11", "new_version.py": "C17 C06 C02 C01 C24 C05 C16", "inventory.py": "C16 C17 C06 C24 C19", "inventory_validator.py": "C09 C10 C12 C11 C07 C23",
    "validator.py": "C08 C10 C07 C11 C12", "storage_root.py": "C15 C14 C11 C21", "layout.py": "C14 C13 C15", "layout_registry.py": "C13 C14", "layout_0002_flat_direct.py": "C13 C14",
    "layout_0003_hash_and_id_n_tuple.py": "C13 C14", "layout_nnnn_flat_quoted.py": "C13", "layout_nnnn_tuple_tree.py": "C13", "layout_nnnn_uuid_quadtree.py": "C13", "fsw.py": "C18 C12 C01", "digest.py": "C18 C02",
    "bagger.py": "C19", "w3c_datetime.py": "C20", "namaste.py": "C22 C08 C15", "object_utils.py": "C22 C06 C18", "version_metadata.py": "C16 C01 C19 C05", "validation_logger.py": "C11 C12 C08 C21",
    "command_line_utils.py": "C21", "constants.py": "C02 C07", "ocfl-object.py": "C21 C19", "ocfl-root.py": "C21", "ocfl-validate.py": "C21", "ocfl-sidecar.py": "C21",
}
ALL = ["C%02d" % i for i in range(1, 32)]
CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}


def is_doc(node):
    return isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant) and isinstance(node.value.value, str)


def is_log(node):
    return (isinstance(node, ast.Expr) and isinstance(node.value, ast.Call) and isinstance(node.value.func, ast.Attribute)
            and isinstance(node.value.func.value, ast.Name) and node.value.func.value.id == "logging")


def sites(tree):
    """Yield (path, kind) where path locates the node and kind names the change."""
    def walk(node, path, skip):
        if is_doc(node) or is_log(node):
            return
        inside_raise = skip or isinstance(node, ast.Raise)
        if isinstance(node, ast.Compare) and len(node.ops) == 1 and type(node.ops[0]) in CMP:
            yield path, "cmp"
        if isinstance(node, ast.BoolOp):
            yield path, "boolop"
            for k in range(len(node.values)):
                yield path, "drop operand %d" % k
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            yield path, "not"
        if isinstance(node, (ast.If, ast.While)):
            yield path, "true"
            yield path, "false"
        if isinstance(node, ast.IfExp):
            yield path, "true"
            yield path, "false"
        if isinstance(node, ast.Constant) and not skip:
            v = node.value
            if isinstance(v, bool):
                yield path, "flip"
            elif isinstance(v, int):
                yield path, "inc"
                yield path, "dec"
            elif isinstance(v, str) and len(v) < 40 and not inside_raise:
                yield path, "str"
        if isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Break, ast.Continue, ast.Return, ast.Delete)):
            yield path, "delete"
        if isinstance(node, ast.Return) and isinstance(node.value, ast.Constant) is False and node.value is not None:
            yield path, "return none"
        if isinstance(node, ast.Call):
            for k in range(len(node.keywords)):
                yield path, "drop keyword %d" % k
        if isinstance(node, ast.BinOp) and isinstance(node.op, (ast.Add, ast.Sub)):
            yield path, "arith"
        if isinstance(node, ast.Slice) or (isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in ("lower", "upper", "strip", "rstrip", "sort", "copy", "fullmatch")):
            yield path, "unwrap"
        if isinstance(node, ast.ExceptHandler):
            yield path, "reraise"
        for f, v in ast.iter_fields(node):
            if f in ("decorator_list", "annotation", "returns"):
                continue
            if isinstance(v, list):
                for k, x in enumerate(v):
                    if isinstance(x, ast.AST):
                        yield from walk(x, path + ((f, k),), inside_raise)
            elif isinstance(v, ast.AST):
                yield from walk(v, path + ((f, None),), inside_raise)
    yield from walk(tree, (), False)


def get(node, path):
    for f, k in path:
        node = getattr(node, f)
        if k is not None:
            node = node[k]
    return node


def put(tree, path, new):
    parent = get(tree, path[:-1])
    f, k = path[-1]
    if k is None:
        setattr(parent, f, new)
    else:
        getattr(parent, f)[k] = new


def mutate(tree, path, kind):
    tree = copy.deepcopy(tree)
    n = get(tree, path)
    line = getattr(n, "lineno", 0)
    before = ast.unparse(n)[:160]
    if kind == "cmp":
        n.ops = [CMP[type(n.ops[0])]()]
        new = n
    elif kind == "boolop":
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
        new = n
    elif kind.startswith("drop operand"):
        del n.values[int(kind.split()[-1])]
        new = n if len(n.values) > 1 else n.values[0]
    elif kind == "not":
        new = n.operand
    elif kind in ("true", "false"):
        if kind == "true" and isinstance(n, ast.While):
            return None
        n.test = ast.Constant(kind == "true")
        new = n
        before = before.split("\n")[0]
    elif kind == "flip":
        new = ast.Constant(not n.value)
    elif kind in ("inc", "dec"):
        new = ast.Constant(n.value + (1 if kind == "inc" else -1))
    elif kind == "str":
        new = ast.Constant(n.value + "X" if n.value else "X")
    elif kind == "delete":
        new = ast.Pass()
    elif kind == "return none":
        n.value = ast.Constant(None)
        new = n
    elif kind.startswith("drop keyword"):
        del n.keywords[int(kind.split()[-1])]
        new = n
    elif kind == "arith":
        n.op = ast.Sub() if isinstance(n.op, ast.Add) else ast.Add()
        new = n
    elif kind == "unwrap":
        if isinstance(n, ast.Slice):
            if n.upper is not None:
                n.upper = None
            else:
                n.lower = None
            new = n
        elif n.func.attr == "fullmatch":
            n.func.attr = "match"
            new = n
        elif n.args or n.keywords:
            return None
        else:
            new = n.func.value
    elif kind == "reraise":
        n.body = [ast.Raise()]
        new = n
        before = "except " + (ast.unparse(n.type) if n.type else "")
    put(tree, path, new)
    ast.fix_missing_locations(tree)
    after = ast.unparse(get(tree, path))[:160]
    if kind in ("true", "false", "reraise"):
        after = kind
    return line, before, after, ast.unparse(tree)


def files():
    out = [os.path.join("ocfl", f) for f in sorted(os.listdir(REPO + "/ocfl")) if f.endswith(".py") and f not in ("__init__.py", "_version.py")]
    return out + ["ocfl-object.py", "ocfl-root.py", "ocfl-validate.py", "ocfl-sidecar.py"]


RUNNER = """
import sys, json, io, contextlib
sys.path.insert(0, %r)
from vf import common
props, cap, seed = json.loads(sys.argv[1]), float(sys.argv[2]), int(sys.argv[3])
res = {}
for p in props:
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        rc = common.run_property(p, "quick", seed, ncases=100000, cap=cap, workers=1, quiet=True, write=False)
    t = out.getvalue()
    res[p] = rc
    if rc == 1:
        print("KILLED", p, [x.strip() for x in t.splitlines() if x.startswith("  ")][:1]); break
    if "HARNESS-ERROR" in t:
        print("ERROR", p, [x for x in t.splitlines() if "HARNESS" in x][:1]); break
else:
    print("SURVIVED")
"""


def one(args):
    idx, f, path, kind, cap, seed = args
    with open(os.path.join(REPO, f), encoding="utf8") as fh:
        tree = ast.parse(fh.read())
    m = mutate(tree, path, kind)
    if m is None:
        return None
    line, before, after, text = m
    d = "/dev/shm/mut/%d" % idx
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(REPO + "/ocfl", d + "/ocfl", ignore=shutil.ignore_patterns("__pycache__"))
    for x in ("ocfl-object.py", "ocfl-root.py", "ocfl-validate.py", "ocfl-sidecar.py"):
        shutil.copy(os.path.join(REPO, x), d)
    with open(os.path.join(d, f), "w", encoding="utf8") as fh:
        fh.write(text)
    first = FIRST.get(os.path.basename(f), "").split()
    props = first + [p for p in ALL if p not in first]
    env = dict(os.environ, VF_REPO=d, VF_NO_EVIDENCE="1", PYTHONDONTWRITEBYTECODE="1")
    try:
        r = subprocess.run([PY, "-W", "ignore", "-c", RUNNER % VERIF, json.dumps(props), str(cap), str(seed)], cwd=VERIF, env=env, capture_output=True, text=True, timeout=1500)
        last = [x for x in r.stdout.splitlines() if x.startswith(("KILLED", "ERROR", "SURVIVED"))]
        res = last[-1] if last else "CRASH " + r.stderr[-300:]
    except subprocess.TimeoutExpired:
        res = "TIMEOUT"
    shutil.rmtree(d, ignore_errors=True)
    return {"file": f, "line": line, "kind": kind, "before": before, "after": after, "result": res[:500]}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--files")
    ap.add_argument("--sample", type=int)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--cap", type=float, default=3)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--count", action="store_true")
    a = ap.parse_args()
    todo = []
    for f in files():
        if a.files and os.path.basename(f) not in a.files.split(","):
            continue
        with open(os.path.join(REPO, f), encoding="utf8") as fh:
            tree = ast.parse(fh.read())
        s = list(sites(tree))
        print(f, len(s), file=sys.stderr)
        todo += [(f, p, k) for p, k in s]
    random.Random(a.seed).shuffle(todo)
    if a.sample:
        todo = todo[:a.sample]
    if a.count:
        return
    done = 0
    with concurrent.futures.ThreadPoolExecutor(a.jobs) as ex, open(a.out, "a", encoding="utf8") as out:
        for r in ex.map(one, [(k, f, p, kind, a.cap, a.seed) for k, (f, p, kind) in enumerate(todo)]):
            done += 1
            if r:
                out.write(json.dumps(r) + "\n")
                out.flush()
    shutil.rmtree("/dev/shm/mut", ignore_errors=True)
    print("done", done, file=sys.stderr)


main()
