#!/usr/bin/env python3
"""setup_cmd: the tools the checks use are there (checks build the rest)."""
import shutil
import sys

miss = [t for t in ("cmake", "gcc", "g++", "clang", "clang++", "make")
        if not shutil.which(t)]
if miss:
    sys.exit("missing: %s" % miss)
print("ok")
