#!/usr/bin/env python3
"""Checks that the tools are there; every check builds what it needs from /repo by itself."""
import shutil, sys
missing = [t for t in ("clang++", "g++", "python3", "node", "valgrind", "cargo") if not shutil.which(t)]
if missing:
    sys.exit("missing tools: " + ", ".join(missing))
print("tools present")
