#!/usr/bin/env python3
"""Builds what the checks share: the library (plain and sanitised) and the TLC module override."""
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(ROOT, "harness"), os.path.join(ROOT, "tools")]
import build_lib
import common
print(common.classes())
for v in build_lib.VARIANTS:
    print(build_lib.build(v))
lib = build_lib.build("plain")
print(build_lib.pyext(lib))
print(build_lib.fortlib(lib))
