#!/usr/bin/env python3
"""/verif/run Cxx [--replay FILE] : decides one property against /repo's working tree."""
import argparse
import importlib
import json
import os
import signal
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def out_of_time(*_):
    raise TimeoutError("a quick check has 840 s")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a = ap.parse_args()
    from vlib.check import Check

    replay = None
    if a.replay:
        with open(a.replay) as f:
            replay = json.load(f)
    c = Check(a.prop, a.tier, a.seed, replay)
    mod = importlib.import_module(f"checks.{a.prop.lower()}")
    if c.quick:
        signal.signal(signal.SIGALRM, out_of_time)
        signal.alarm(840)
    try:
        code = mod.run(c)
    except Exception:
        # what was found before counts
        if not c.violations:
            raise
        traceback.print_exc()
        code = c.finish(["the check did not come to its end"])
    signal.alarm(0)
    sys.exit(code)


if __name__ == "__main__":
    main()
