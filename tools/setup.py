#!/usr/bin/env python3
"""setup_cmd: checks the tools; the checks build everything they need themselves."""
import subprocess, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B, props as P
subprocess.run([B.CXX, "--version"], check=True, stdout=subprocess.DEVNULL)
assert P.PROPS
srcs, incs = B.lib_layout()
print("ok: %d sources, %d include directories" % (len(srcs), len(incs)))
