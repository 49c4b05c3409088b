#!/opt/venv/bin/python
"""check.py Cxx: decides one property on the current tree of /repo."""
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True

from wv import checks  # noqa: E402
from wv.report import Report  # noqa: E402

if __name__ == "__main__":
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    rep = Report(prop, tier, seed)
    checks.CHECKS[prop](rep, checks.Budget(tier))
    sys.exit(rep.finish())
