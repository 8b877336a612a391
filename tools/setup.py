#!/usr/bin/env python3
"""Build the library in the flavours the checks use (every check rebuilds what changed since)."""
import os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vlib import build, engines
for fl in sorted({e["flavour"] for s in engines.PROPS.values() for e in s["engines"]}):
    build.build(fl)
    print("built", fl)
