#!/usr/bin/env python3
"""check.py <property id>: run the check of one property (environment: VERIF_SEED, VERIF_TIER)"""
import importlib
import os
import sys

sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [f"{here}/lib", f"{here}/checks"]
import vf  # noqa: E402

pid = sys.argv[1]
vf.main(pid, importlib.import_module(pid.lower()).run)
