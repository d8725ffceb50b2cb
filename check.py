#!/usr/bin/env python3-vt
"""check.py ID [quick|thorough]: decide one property on /repo's working tree."""
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import check  # noqa: E402

pid = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
mod = importlib.import_module("vf.p_" + pid.lower())
sys.exit(check.main(pid, mod.run, tier, getattr(mod, "LEVEL", "model_checking"), getattr(mod, "ASSUMPTIONS", ())))
