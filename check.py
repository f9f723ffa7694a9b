#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: one check; see MANIFEST.json and DESIGN.md."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
from vlib import main
from registry import CHECKS
if len(sys.argv) < 2 or sys.argv[1] not in CHECKS:
    print("usage: check.py PROPERTY [quick|thorough]; properties: " + " ".join(sorted(CHECKS)))
    sys.exit(2)
sys.exit(main(CHECKS[sys.argv[1]]))
