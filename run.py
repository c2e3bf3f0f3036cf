#!/opt/venv/bin/python
"""Run one property check:  run.py C01 [--tier quick|thorough] | run.py --replay FILE"""
import os, sys
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from pvt.runner import main
if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
