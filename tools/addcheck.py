#!/usr/bin/env python3
"""addcheck.py <id> <engine> <libs,comma> <note> [key=value python]: append an entry to lib/registry.py"""
import sys
import os
p = os.path.dirname(os.path.abspath(__file__))+"/../lib/registry.py"
s = open(p).read().rstrip()
assert s.endswith("}")
i, eng, libs, note = sys.argv[1:5]
extra = "".join(", %s" % e for e in sys.argv[5:])
s = s[:-1] + ' "%s": dict(engine="%s", libs=%r, technique=%s%s,\n   note=%r),\n}\n' % (i, eng, [l for l in libs.split(",") if l], "MC" if eng == "mc" else "SQ", extra, note)
open(p, "w").write(s)
