#!/usr/bin/env python3
"""Checks that the toolchain is there; every check builds what it needs itself."""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
assert shutil.which(B.CXX), "no C++ compiler"
os.makedirs(B.BUILD, exist_ok=True)
open(os.path.join(B.BUILD, "setup.marker"), "w").write("setup ran\n")
print("setup ok, %d translation units" % len(B.lib_sources()))
