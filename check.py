#!/usr/bin/env python3
"""check.py <property id> [-v] [-k<substring>]   decide one property on /repo's current tree
   check.py --replay FILE                         re-run the concrete search of a reported violation"""
import os
import sys
ROOT = os.path.dirname(os.path.abspath(__file__))
VT = "/opt/veriftools/pyvenv/bin/python3"
if os.path.realpath(sys.prefix) != os.path.realpath("/opt/veriftools/pyvenv") and os.path.exists(VT):
    os.execv(VT, [VT, os.path.join(ROOT, "check.py")] + sys.argv[1:])
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from dv.runner import main
sys.exit(main(sys.argv[1:]))
