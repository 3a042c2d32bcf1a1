#!/usr/bin/env python3
"""Decides one property: python3 check.py C03 [quick|thorough]

Every check (1) model-checks the TLA+ specification with TLC, (2) steps behaviours generated by TLC
through the real library and (3) records executions of the real library and lets TLC decide whether
each is a behaviour the specification allows.  See DESIGN.md.
"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import core, checks  # noqa: E402

if __name__ == "__main__":
    if len(sys.argv) > 2 and sys.argv[1] == "replay":
        sys.exit(checks.replay(sys.argv[2]))
    if len(sys.argv) > 1 and sys.argv[1] == "setup":
        sys.exit(core.setup())
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    sys.exit(core.main(prop, tier, seed, checks.CHECKS, checks.EXPECTED))
