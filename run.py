#!/usr/bin/env python3-vt
"""run.py <property> <quick|thorough> [item]: decide one property from /repo's current source."""

import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[3] if len(sys.argv) > 3 else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import threading

    threading.stack_size(512 * 1024 * 1024)
    rc = []

    def go():
        from pms.check import Check

        m = importlib.import_module(f"checks.{pid.lower()}")
        ck = Check(pid, tier, seed, getattr(m, "LEVEL", "other"), m.RULE, only)
        m.check(ck)
        rc.append(ck.finish(m.EXPLAIN))

    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 3)


if __name__ == "__main__":
    main()
