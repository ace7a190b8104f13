#!/opt/venv/bin/python
"""check.py P01 [quick|thorough]   or   check.py --replay FILE"""
import os
import sys

for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[v] = "1"
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from sim import harness  # noqa: E402
from sim import run  # noqa: E402,F401  (puts the seams in place before anything is loaded)

if __name__ == "__main__":
    sys.exit(harness.main(sys.argv[1:]))
