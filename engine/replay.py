#!/usr/bin/env python3
"""replay.py FILE: rebuilds the contract of a replay file natively against /repo and runs the recorded input."""
import sys, os, tempfile, shutil, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
f = sys.argv[1]
hf, h = [l.split()[1:3] for l in open(f) if l.startswith("harness ")][0]
w = tempfile.mkdtemp()
try:
    n = check.build_native(check.parse(os.path.join(check.VERIF, hf)), w)
    sys.exit(subprocess.run([n, "replay", h, f], env=check.ENV).returncode)
finally: shutil.rmtree(w)
