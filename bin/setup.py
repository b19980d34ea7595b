#!/usr/bin/env python3
"""Checks that the tools are there and builds the workhorse variant."""
import os, sys, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
for t in ("clang", "clang++", "leg"):
    if not shutil.which(t):
        sys.exit("missing tool: " + t)
import build_lib
build_lib.build("asan", ["h_ast"])
