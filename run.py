#!/usr/bin/env python3
"""run.py <property id>: run one check (tier from VERIF_TIER, seed from VERIF_SEED)."""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "checks"))
sys.dont_write_bytecode = True
import harness  # noqa: E402

if __name__ == "__main__":
    pid = sys.argv[1]
    mod = importlib.import_module("c_" + pid.lower())
    sys.exit(harness.main(pid, mod.run, getattr(mod, "LEVEL", "model_checking")))
