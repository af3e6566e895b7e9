#!/usr/bin/env python3
"""replay.py FILE: runs a recorded counterexample natively against /repo (dev and release)."""
import json, os, sys, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import bmc
from check import Replayer
from spec import SPEC
r = json.load(open(sys.argv[1]))
bmc.ALLOC_LIMIT = SPEC[r["property"]].get("alloc_limit")
d = tempfile.mkdtemp(prefix="hv-replay-")
try:
    bmc.copy_crate(r["config"], d)
    rp = Replayer(r["property"], d, lambda: 300)
    bad = 0
    for p in ("dev", "release"):
        s, o = rp.run(r["config"], r["harness"], r["values"], p)
        print(f"{p}: {s}\n{o}")
        bad |= s in ("broken", "hang")
    sys.exit(1 if bad else 0)
finally:
    shutil.rmtree(d, ignore_errors=True)
