#!/usr/bin/env python3
"""setup: checks that the tools the framework needs are present and that the engine itself builds."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vt
os.environ["VT_NOCACHE"] = "1"
b = vt.Builder()
try:
    for f in (b.plugin(), b.rt(), b.rt_replay(), b.explorer()):
        f.result()
    print("engine builds")
finally:
    b.close()
