#!/usr/bin/env python3
"""Offline setup: checks that the analysis can load LLVM and compile a reference specification."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import build, llvm
p = build.compile_one(os.path.join(build.VERIF, "spec", "dream_single.cc"), "spec")
m = llvm.Module([p]).load()
print("ok:", len(m.fns), "functions in the reference unit")
