"""python -m vf.run PROPERTY [--tier quick|thorough] [--seed N] [--cases N] [--replay FILE]"""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import common  # noqa: E402


def main():
    p = argparse.ArgumentParser()
    p.add_argument("prop", nargs="?")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    p.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    p.add_argument("--cases", type=int)
    p.add_argument("--start", type=int, default=0)
    p.add_argument("--workers", type=int)
    p.add_argument("--cap", type=int)
    p.add_argument("--replay")
    p.add_argument("--no-evidence", action="store_true")
    p.add_argument("--quiet", action="store_true")
    a = p.parse_args()
    if a.replay:
        sys.exit(common.replay(a.replay))
    try:
        seed = int(a.seed)
    except ValueError:
        seed = 1
    sys.exit(common.run_property(a.prop, a.tier, seed, ncases=a.cases, start=a.start, workers=a.workers,
                                 cap=a.cap, write=not (a.no_evidence or os.environ.get("VF_NO_EVIDENCE")), quiet=a.quiet))


if __name__ == "__main__":
    main()
