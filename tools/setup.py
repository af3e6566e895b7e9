#!/usr/bin/env python3
"""Checks that the tools the checks need are present. Nothing is built: every check encodes /repo afresh."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import bmc
for p in (f"{bmc.BIN}/goto-cc", f"{bmc.BIN}/goto-instrument", f"{bmc.BIN}/cbmc", bmc.KANI_C):
    if not os.path.exists(p):
        sys.exit(f"missing {p}")
subprocess.run(["cargo", "kani", "--version"], check=True, env=bmc.env())
