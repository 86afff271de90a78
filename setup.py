#!/usr/bin/env python3
"""Builds the engine and pre-compiles /repo (checks redo whatever is missing or out of date)."""
import glob, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
vlib.build_engine()
h = sorted(glob.glob(os.path.join(vlib.VERIF, "harness", "*.cpp")))
if h:
    vlib.build_bitcode(h[0]); vlib.build_native(h[0], "asan")
print("setup done")
