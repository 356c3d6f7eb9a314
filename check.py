#!/opt/venv/bin/python
"""Entry point:  check.py <PROPERTY> [--tier quick|thorough] [--replay FILE] [--only CHECK]"""

import argparse
import importlib
import os
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from vp import env  # noqa: E402  (sets up import paths for hypothesis, stubs and /repo)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"),
                    choices=("quick", "thorough"))
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--scale", type=float, default=1.0)
    args = ap.parse_args()
    seed = args.seed if args.seed is not None else int(os.environ.get("VERIF_SEED", "1") or 1)
    env.setup()
    from vp import core
    prop = env.load(args.property)
    if args.replay:
        return core.replay(prop, args.replay)
    return core.run_property(prop, args.tier, seed, only=args.only, jobs=args.jobs,
                             scale=args.scale)


if __name__ == "__main__":
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
