#!/usr/bin/env python3
"""Builds the sanitized library and all drivers ahead of the checks (they rebuild incrementally themselves)."""
import glob
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vf

try:
    vf.build([os.path.basename(f)[:-3] for f in sorted(glob.glob(os.path.join(vf.VERIF, "harness", "ops_*.cc")))] + ["io"])
except vf.ModelError as e:
    print("ERROR: %s" % e, file=sys.stderr)
    sys.exit(2)
