"""Entry point of every check: run.py <property> [--replay FILE] [--tier T]."""
import argparse
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mc import core  # noqa: E402


def main():
    p = argparse.ArgumentParser()
    p.add_argument("property")
    p.add_argument("--replay")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = p.parse_args()
    core.prepare()
    try:
        mod = importlib.import_module("mc.checks." + a.property)
        if a.replay:
            return core.replay(a.property, mod, a.replay)
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        return core.run_check(a.property, mod, a.tier, seed)
    finally:
        core.cleanup()


if __name__ == "__main__":
    try:
        code = main()
    except BaseException:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
