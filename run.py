"""Entry point of the checks (see ./check)"""
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from mc import engine                                       # noqa: E402

BUDGET = dict(quick=420., thorough=5400.)


def main():
    args = sys.argv[1:]
    if args and args[0] == "--replay":
        d = json.load(open(args[1]))
        check = importlib.import_module("checks." + d["property"]).check
        sys.exit(engine.replay(check, args[1]))
    pid = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    budget = float(os.environ.get("VERIF_BUDGET", BUDGET[tier]))
    check = importlib.import_module("checks." + pid).check
    sys.exit(engine.run_check(check, tier, seed, budget))


main()
