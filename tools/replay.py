#!/usr/bin/env python3
"""Replays a violation: tools/replay.py FILE [--trace].  Exit 1 = reproduced exactly."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from check import Wine, z
B.build()
w = Wine()
try:
    rc = w.popen(["replay", z(os.path.abspath(sys.argv[1]))] + sys.argv[2:], None).wait()
finally:
    w.close()
sys.exit(rc)
