#!/usr/bin/env python3
"""Builds the simulator host once, to fail early when the toolchain is unusable."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import simbuild
b = simbuild.Builder(); b.host(); b.compile_all()
if b.failed: print(b.failed); sys.exit(1)
print(b.link_host())
