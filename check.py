#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough]: decide one property from /repo's current source"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    from bfstatic import registry
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    sys.exit(registry.run(pid, tier))


main()
