#!/usr/bin/env python3
"""setup_cmd: toolchain sanity and a warm object cache (each check also builds what it needs itself)."""
import os, sys, subprocess, glob
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(V, "lib"))
import vbuild
for t in ("java", "g++", "flex"):
    if subprocess.run(["which", t], capture_output=True).returncode:
        sys.exit("missing tool " + t)
try:
    import targets
    vbuild.build(targets.all_targets())
except Exception as e:       # a broken tree is the business of the checks
    sys.stderr.write("warm-up build: %s\n" % e)
