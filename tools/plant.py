#!/usr/bin/env python3
"""Plant one bug: confirm it in a scratch copy of /repo and keep it as seeded/<id>/.

usage: plant.py SPEC.py [--check] ...    SPEC.py defines a list BUGS of dicts:
  id, property, edits [(file, old, new)], needs, breaks, demo (Python source run with cwd = repository)
Confirms: the patch applies, changed lines are lines of the original repository, the stable tests pass with it,
the demo passes on the unchanged tree and fails with the patch.  With --check also runs the property's quick check.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import concurrent.futures

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PLANT_REPO", "/repo")
PY = "/opt/venv/bin/python"
BASE = subprocess.run(["git", "-C", REPO, "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[0]

DEMO_SH = """#!/bin/bash
# exit 0 when the property holds for this case, non-zero when it does not
here="$(cd "$(dirname "$0")" && pwd)"
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
scratch="$(mktemp -d)" || exit 3
trap 'rm -rf "$scratch"' EXIT
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 LC_ALL=C.UTF-8 DEMO_REPO="$PWD" DEMO_SCRATCH="$scratch"
cd "$scratch" || exit 3
timeout 200 "$PY" -W ignore "$here/demo.py"
"""


def sh(cmd, cwd, timeout=600, env=None):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=e)


def original_lines(repo, patch_files):
    """Every removed or replaced line must be blamed on the base commit."""
    bad = []
    out = sh(["git", "diff", "-U0"], repo).stdout
    f = None
    for line in out.splitlines():
        if line.startswith("--- a/"):
            f = line[6:]
        elif line.startswith("@@"):
            old = line.split()[1][1:]
            a, _, n = old.partition(",")
            n = int(n or 1)
            a = int(a)
            if n == 0:
                bad.append((f, a, "pure addition"))
                continue
            bl = sh(["git", "blame", "-l", "-s", "-L", "%d,%d" % (a, a + n - 1), "HEAD", "--", f], repo).stdout
            for b in bl.splitlines():
                h = b.split()[0].lstrip("^")
                if not BASE.startswith(h):
                    bad.append((f, a, b[40:120]))
    return bad


def plant(b, check):
    tmp = tempfile.mkdtemp(prefix="plant_%s_" % b["id"], dir="/tmp")
    res = {"id": b["id"]}
    try:
        repo = os.path.join(tmp, "repo")
        subprocess.run(["cp", "-a", REPO, repo], check=True)
        d = os.path.join(tmp, "bug")
        os.mkdir(d)
        with open(os.path.join(d, "demo.sh"), "w") as fh:
            fh.write(DEMO_SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        with open(os.path.join(d, "demo.py"), "w") as fh:
            fh.write(b["demo"].lstrip("\n"))
        before = sh(["bash", os.path.join(d, "demo.sh")], repo)
        res["demo_before"] = before.returncode
        if before.returncode:
            res["out"] = (before.stdout + before.stderr)[-800:]
            return res
        for (f, old, new) in b["edits"]:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) != 1:
                res["error"] = "%s: %d matches for %r" % (f, s.count(old), old[:60])
                return res
            with open(p, "w") as fh:
                fh.write(s.replace(old, new))
        patch = sh(["git", "diff"], repo).stdout
        with open(os.path.join(d, "patch.diff"), "w") as fh:
            fh.write(patch)
        res["not_original"] = original_lines(repo, None)
        after = sh(["bash", os.path.join(d, "demo.sh")], repo)
        res["demo_after"] = after.returncode
        res["demo_out"] = (after.stdout + after.stderr)[-300:]
        junit = os.path.join(tmp, "j.xml")
        out = os.path.join(tmp, "t.json")
        sh(["bash", "-c", ". /opt/vp/env.sh; python -m pytest -q -p no:cacheprovider --timeout=300 -o junit_family=xunit2 --junitxml=%s tests; /usr/bin/python3 /opt/vp/results.py %s junit:%s" % (junit, out, junit)], repo)
        t = json.load(open(out))
        base = json.load(open("/opt/vp/BASELINE.json"))
        passed = set(t.get("passed", []))
        want = set(base.get("stable", base.get("passed", [])))
        res["broken_tests"] = sorted(want - passed)[:5]
        ok = res["demo_after"] != 0 and not res["broken_tests"] and not [x for x in res["not_original"] if x[2] != "pure addition"]
        res["ok"] = ok
        with open(os.path.join(d, "meta.json"), "w") as fh:
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, fh, indent=2)
            fh.write("\n")
        if ok:
            dst = os.path.join(VERIF, "seeded", b["id"])
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(d, dst)
        if check:
            for p in [b["property"]] + b.get("also", []):
                r = sh([os.path.join(VERIF, "check.sh"), p, "quick"], VERIF, timeout=900, env={"VF_REPO": repo, "VF_NO_EVIDENCE": "1"})
                v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
                res["check " + p] = (r.returncode, v[:1], (r.stdout.splitlines() or [""])[-1][:200])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return res


def main():
    check = "--check" in sys.argv
    only = [a[5:] for a in sys.argv if a.startswith("only=")]
    bugs = []
    for a in sys.argv[1:]:
        if a.endswith(".py"):
            ns = {}
            exec(compile(open(a).read(), a, "exec"), ns)  # pylint: disable=exec-used
            bugs += ns["BUGS"]
    bugs = [b for b in bugs if not only or b["id"] in only]
    with concurrent.futures.ThreadPoolExecutor(2 if check else 6) as ex:
        for r in ex.map(lambda b: plant(b, check), bugs):
            print(json.dumps(r, indent=None), flush=True)


if __name__ == "__main__":
    main()
