#!/usr/bin/env python3
"""Builds what the checks need, ahead of time (every check does it again when sources changed)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vsim import build
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
print(build.build_libcpp(PY))
print(build.build_libcpp(PY, variant='mem'))
print(build.build_libcpp(PY, variant='thr'))
