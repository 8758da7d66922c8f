"""Usage: run.py <PROPERTY> [--tier quick|thorough] [--seed N] [--replay FILE] [--only sub,...] [-v]"""
import argparse
import importlib
import os
import sys
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path[:0] = [REPO, HERE, os.path.join(VERIF, "vendor")]
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")


def module_of(pid):
    for fn in sorted(os.listdir(os.path.join(HERE, "props"))):
        if fn.lower().startswith(pid.lower() + "_") and fn.endswith(".py"):
            return "props." + fn[:-3]
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    mod = module_of(a.pid)
    if mod is None:
        print("unknown property", a.pid)
        return 2
    import posydon
    where = os.path.realpath(posydon.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        print("posydon imported from", where, "instead of", REPO)
        return 2
    import core
    importlib.import_module(mod)
    core.report_known(a.pid)
    if a.replay:
        return core.replay(a.replay)
    return core.main(a.pid, a.tier, a.seed, a.j, a.only.split(",") if a.only else None, a.v)


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    os._exit(code)
