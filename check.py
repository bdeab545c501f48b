#!/usr/bin/env python3
"""check.py Cxx [--tier quick|thorough] [--seed N] | check.py replay FILE | check.py setup"""
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
from common import CheckError, log


def main(a):
    def opt(k, d):
        return a[a.index(k) + 1] if k in a else d
    try:
        if a[0] == "replay":
            d = json.load(open(a[1]))
            if d["kind"] == "expansion-simulation":
                import expcheck
                return expcheck.replay_file(d)
            if d["kind"] == "answer-simulation":
                import anscheck
                return anscheck.replay_file(d)
            import simcheck
            return simcheck.replay_file(d)
        if a[0] == "setup":
            import simcheck
            simcheck.build_deps()
            if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib", "expcheck.py")):
                import expcheck
                expcheck.prepare()
            return 0
        tier = opt("--tier", os.environ.get("VERIF_TIER", "quick"))
        seed = int(opt("--seed", os.environ.get("VERIF_SEED", "1")) or 1)
        if a[0] == "C11":
            import expcheck
            return expcheck.check(tier, seed)
        if a[0] in ("C16", "C17", "C18", "C20", "C21"):
            import anscheck
            return anscheck.check(a[0], tier, seed)
        import simcheck
        return simcheck.check(a[0], tier, seed)
    except CheckError as e:
        log(f"CHECK ERROR: {e}")
        return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
