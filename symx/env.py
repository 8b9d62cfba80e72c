"""Make numpy/scipy of the project's interpreter and z3 of the tooling venv importable together."""
import os
import sys

os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.dont_write_bytecode = True

import warnings  # noqa: E402
warnings.filterwarnings("ignore")

import numpy  # noqa: E402,F401
import scipy.linalg  # noqa: E402,F401

REPO = os.environ.get("SYMX_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)

import z3  # noqa: E402,F401

import logging
logging.disable(logging.CRITICAL)
