#!/usr/bin/env python3
"""setup_cmd: compiles every claimed harness once (fills the compiler cache in .build). Never fails because of one harness."""
import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
from registry import CHECKS
t0 = time.time()
for pid in sorted(CHECKS, key=lambda p: (CHECKS[p]["engine"] != "sq", -len(CHECKS[p].get("libs", ())), p)):
    t = time.time()
    try:
        check.build(pid); print("%s built in %.1fs" % (pid, time.time() - t), flush=True)
    except Exception as e:
        print("%s: %s" % (pid, str(e)[:2000]), flush=True)
print("setup: %.1fs" % (time.time() - t0))
