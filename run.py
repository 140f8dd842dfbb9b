#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough] [--replay FILE]"""
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
sys.dont_write_bytecode = True
import core  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only = None
    if "--replay" in sys.argv:
        only = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))["scenario"]
    try:
        sys.exit(core.check(prop, tier, seed, only))
    except core.MachineryError as ex:
        print("MACHINERY:", ex)
        sys.exit(2)


main()
