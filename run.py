"""usage: run.py PROPERTY [--tier quick|thorough] [--replay FILE] [--shards N]"""
import argparse
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    sys.stdout.reconfigure(errors="backslashreplace")
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--shards", type=int, default=8)
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1, help="factor for the number of generated cases")
    ap.add_argument("--shrink", type=float, default=40, help="seconds for making a failing case small")
    a = ap.parse_args()
    from pbt import core

    prop = importlib.import_module(f"pbt.checks.{a.property.lower()}").PROPERTY
    core.SHRINK_SECONDS = a.shrink
    for sub in prop.subs:
        sub.n = {k: round(n * a.scale) for k, n in sub.n.items()}
    if a.replay:
        return core.replay(prop, a.replay)
    return core.main(prop, a.tier, a.seed, a.shards)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        import traceback

        traceback.print_exc()
        sys.exit(2)
