#!/usr/bin/env python3
"""replay.py PROPERTY FILE: runs the recorded case against /repo's current sources."""
import os, sys, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, props
pid, path = sys.argv[1:3]
line = [l[6:].strip() for l in open(path) if l.startswith("case: ")][0]
entry = line.split(";")[0]
r = [x for x in props.PROPS[pid]["runs"] if x["entry"] == entry][0]
_, nat, _ = build.Builder().program(r["harness"].split(), None, r.get("defs", ()))
f = build.BUILD + "/replay.case"
open(f, "w").write(line + "\n")
sys.exit(subprocess.run([nat(), "-v", f], env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99")).returncode)
