#!/usr/bin/env -S /opt/veriftools/pyvenv/bin/python
"""check.py <ID> [--tier quick|thorough] [--cases N] [--first I] [--limit S] | check.py --replay FILE"""
import os, sys
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from simlib import driver
if __name__ == "__main__":
    sys.exit(driver.main(sys.argv[1:]))
