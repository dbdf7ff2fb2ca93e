"""check.py ID [--tier quick|thorough] [--seed N]   run one check
check.py --replay FILE                            run one saved case again"""
import argparse
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from qv import core  # noqa: E402


def main():
    ap = argparse.ArgumentParser(usage=__doc__)
    ap.add_argument("id", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--shards", type=int)
    ap.add_argument("--budget", type=float)
    ap.add_argument("--worker")
    ap.add_argument("--shard", type=int, default=0)
    ap.add_argument("--of", type=int, default=1)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        ap.error("tier must be quick or thorough")
    if a.worker:
        core.worker(a.worker, a.tier, a.seed, a.shard, a.of, a.budget, a.out)
        return 0
    if a.replay:
        return core.replay(a.replay)
    return core.run(a.id.upper(), a.tier, a.seed, a.shards, a.budget)


if __name__ == "__main__":
    sys.exit(main())
