#!/usr/bin/env python3
"""setup: nothing to build ahead of time (every check rebuilds what it needs from /repo); checks the tools are there."""
import subprocess, sys, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
os.makedirs(os.path.join(ROOT, "out"), exist_ok=True)
subprocess.run(["/opt/veriftools/pyvenv/bin/python3", "-c", "import z3; print('z3', z3.get_version_string())"], check=True)
