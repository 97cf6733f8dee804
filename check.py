#!/usr/bin/env python3
"""check.py Cxx: decides one property (VERIF_TIER=quick|thorough, VERIF_SEED=n).
Exit 0: held on everything explored; 1: violated (a VIOLATION line was printed); 2: the check could not run."""
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from dve import checks, driver  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        return checks.run(prop, "thorough" if tier == "thorough" else "quick", seed)
    except driver.ToolError as e:
        print("TOOL-ERROR %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
