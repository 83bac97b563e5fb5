#!/opt/veriftools/pyvenv/bin/python3
"""check.py ID [--tier quick|thorough] [--seed N] [--replay FILE]"""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from lib import engine  # noqa: E402


def main():
    a = argparse.ArgumentParser()
    a.add_argument("id")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or "1"))
    a.add_argument("--replay")
    a = a.parse_args()
    try:
        rc = engine.run_check(a.id, a.tier, a.seed, a.replay)
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)


main()
