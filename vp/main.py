import argparse, importlib, os, sys

from . import env

env.install()

from . import core


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VP_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    a = ap.parse_args()
    env.self_test()
    sys.setrecursionlimit(1000)
    mod = importlib.import_module("vp.props." + a.pid.lower())
    seed = int(os.environ.get("VERIF_SEED") or "1")
    if a.replay:
        return core.replay(a.pid, mod, a.replay)
    return core.run_check(a.pid, mod, a.tier, seed)


if __name__ == "__main__":
    sys.exit(main())
