"""check.py <PROPERTY> [--tier quick|thorough] [--replay FILE] [--serial]"""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from mc import boot  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--serial", action="store_true")
    ap.add_argument("--limit", type=int)
    ap.add_argument("--stride", type=int, default=1)
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    if a.prop in ("C14", "C17"):
        from mc import fsfault

        fsfault.ensure()
    boot.boot()
    from mc import core

    sys.exit(
        core.main(a.prop, a.tier, int(os.environ.get("VERIF_SEED", "1") or 1),
                  a.replay, a.serial, a.limit, a.stride)
    )


if __name__ == "__main__":
    main()
