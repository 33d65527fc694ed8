#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough]"""
import argparse, os, sys
for k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(k, "1")
sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("prop")
ap.add_argument("--tier", default=None)
a = ap.parse_args()
if a.tier:
    os.environ["VERIF_TIER"] = a.tier
from engine import harness
code = harness.main(a.prop, a.tier)
sys.stdout.flush()
os._exit(code)
