#!/usr/bin/env python3
"""check.py <property id>: runs one check (see checks/)."""
import os
import runpy
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)),
                            "checks", sys.argv[1].lower() + ".py"),
               run_name="__main__")
