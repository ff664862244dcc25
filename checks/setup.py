#!/usr/bin/env python3
"""Every check builds what it needs from the tree under test; this only makes
sure the tools it uses are there."""
import shutil, sys
missing = [t for t in ("cmake", "ninja", "g++", "clang++", "mpirun") if not shutil.which(t)]
if missing:
    print("missing tools: " + " ".join(missing))
    sys.exit(1)
print("ok")
