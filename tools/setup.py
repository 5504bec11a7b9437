#!/usr/bin/env python3
"""Checks that the tools are there and builds the harness once (every check rebuilds what it needs)."""
import glob, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
import build
progs = sorted(os.path.basename(f)[:-4] for f in glob.glob(os.path.join(HERE, "harness", "*.cpp")))
print(build.build(progs, "plain"))
subprocess.run(["java", "-version"], check=True)
