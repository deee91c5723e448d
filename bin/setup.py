#!/usr/bin/env python3
"""Checks the toolchain and compiles the explorer; every check builds its harness from /repo's current tree itself."""
import os, sys, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
os.makedirs(os.path.join(check.BUILD, "obj"), exist_ok=True)
src, obj, log = check.compile_one((os.path.join(check.VERIF, "harness", "vx.cpp"), check.COMMON + check.SAN + ["-O2"], "setup"))
print(log or "explorer compiles")
sys.exit(0 if obj else 1)
