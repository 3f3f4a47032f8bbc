#!/usr/bin/env python3
"""Run the check of each planted bug's property against a scratch copy of the repository with that bug.

usage: catch.py [OUT.jsonl] [only=ID ...] [tier=quick] [seed=1]      Not a registered check; its results are in DESIGN.md.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PLANT_REPO", "/repo")


def main():
    only = [a[5:] for a in sys.argv if a.startswith("only=")]
    opt = dict(a.split("=", 1) for a in sys.argv[1:] if "=" in a)
    out = [a for a in sys.argv[1:] if a.endswith(".jsonl")]
    seeded = os.path.join(VERIF, "seeded")
    for bug in sorted(os.listdir(seeded)):
        if only and bug not in only:
            continue
        with open(os.path.join(seeded, bug, "meta.json"), encoding="utf8") as fh:
            prop = json.load(fh)["property"]
        tmp = tempfile.mkdtemp(prefix="catch_", dir="/tmp")
        try:
            repo = os.path.join(tmp, "repo")
            subprocess.run(["cp", "-a", REPO, repo], check=True)
            subprocess.run(["git", "-C", repo, "apply", os.path.join(seeded, bug, "patch.diff")], check=True)
            t = time.time()
            r = subprocess.run([os.path.join(VERIF, "check.sh"), prop, opt.get("tier", "quick")], cwd=VERIF, capture_output=True, text=True, timeout=4000, check=False,
                               env=dict(os.environ, VF_REPO=repo, VF_NO_EVIDENCE="1", VERIF_SEED=opt.get("seed", "1")))
            n = r.stdout.count("VIOLATION property=%s" % prop)
            res = {"bug": bug, "property": prop, "rc": r.returncode, "caught": r.returncode == 1 and n > 0, "lines": n, "seconds": round(time.time() - t, 1), "last": r.stdout.splitlines()[-1:]}
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        print(json.dumps(res), flush=True)
        if out:
            with open(out[0], "a", encoding="utf8") as fh:
                fh.write(json.dumps(res) + "\n")


if __name__ == "__main__":
    main()
