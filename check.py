#!/usr/bin/env python3
"""Decide one property of llvm/torch-mlir from the sources of /repo.

usage: check.py --property C01 [--tier quick|thorough]
exit 0: held on what was analysed (what could not be is listed as undecided); 1: violated (VIOLATION line).
"""
import argparse
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from sa.report import Ctx, finish  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--selftest", action="store_true", help="check that the framework's modules load")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    if a.selftest:
        for f in sorted(os.listdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))):
            if f.startswith("c") and f.endswith(".py"):
                importlib.import_module("checks." + f[:-3])
        return 0
    ctx = Ctx(a.property, a.tier, int(os.environ.get("VERIF_SEED", "1")))
    mod = importlib.import_module("checks." + a.property.lower())
    import threading

    rc = []

    def run():
        try:
            ctx.group(mod.run)
            rc.append(finish(ctx))
        except BaseException:
            traceback.print_exc()
            rc.append(3)

    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=run)
    t.start()
    t.join()
    sys.stdout.flush()
    return rc[0] if rc else 3


if __name__ == "__main__":
    sys.exit(main())
