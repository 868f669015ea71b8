#!/usr/bin/env python3
"""replay.py <replay file>: run one recorded schedule / choice list against /repo's current tree, verbosely."""
import re, subprocess, sys, os, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
t = open(sys.argv[1]).read()
m = re.search(r"# property (\S+) scenario (\S+)", t)
exe = check.build(m.group(1))
d = tempfile.mkdtemp()
open(d + "/r", "w").write(t.split("#")[0])
sys.exit(subprocess.run([exe, "--scenario", m.group(2), "--replay", d + "/r", "-v"], cwd=d).returncode)
