#!/usr/bin/env python3
"""setup_cmd: checks that the tools are there and builds the library once (the checks build what they need themselves)."""
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import fbuild

for c in (["java", "-version"], ["mpif90", "--version"], ["mpirun", "--version"]):
    subprocess.run(c, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, check=True, env=fbuild.env())
print(fbuild.lib())
