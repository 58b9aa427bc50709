#!/usr/bin/env python3
"""Fresh-sandbox setup: checks the toolchain and parses every specification."""
import glob, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
bad = 0
for tool in ("java", "g++", "protoc", "pkg-config"):
    if subprocess.run(["which", tool], capture_output=True).returncode:
        print("missing tool", tool); bad = 1
mods = sorted(glob.glob(os.path.join(vlib.SPECS, "*.tla")))
r = subprocess.run(["java", "-cp", vlib.TLA_CP, "tla2sany.SANY"] + mods, capture_output=True, text=True, cwd=vlib.SPECS)
if r.returncode or "*** Errors" in r.stdout:
    print(r.stdout[-3000:]); bad = 1
vlib.cleanup()
print("setup:", len(mods), "specification modules parsed")
sys.exit(bad)
