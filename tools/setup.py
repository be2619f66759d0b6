#!/usr/bin/env python3
"""Sanity of the toolchain the checks need (nothing is installed or kept)."""
import os
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check   # noqa: E402
w = tempfile.mkdtemp()
try:
    check.build_kernel(w)
    subprocess.run([check.PY, "-c", "import numpy"], check=True)
finally:
    shutil.rmtree(w)
print("ok")
