#!/usr/bin/env python3-vt
"""Builds the analyser and the standard library with MIR, and compiles the harness once."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib

try:
    print(lib.build_engine())
    print(lib.miri_sysroot())
    print(lib.record())
except lib.Broken as e:
    sys.exit(f"setup: {e}")
