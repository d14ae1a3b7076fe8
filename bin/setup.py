#!/usr/bin/env python3
"""Offline set-up: nothing is installed; confirms that the tools and the specifications are there and parse."""
import glob, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
for t in ("g++", "make", "java"):
    if subprocess.run(["which", t], capture_output=True).returncode:
        sys.exit("missing tool " + t)
bad = 0
for f in sorted(glob.glob(os.path.join(V, "spec", "*.tla"))):
    r = subprocess.run(["java", "-cp", CP, "tla2sany.SANY", os.path.basename(f)], cwd=os.path.join(V, "spec"), capture_output=True, text=True)
    if r.returncode or "rror" in r.stdout:
        print(r.stdout[-800:])
        bad += 1
print("specifications checked; %d do not parse" % bad)
sys.exit(1 if bad else 0)
