"""Offline set-up: checks that the interpreter, the library under test and the solver load (the checks compile changed kernels themselves)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import boot
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence", "replay"), exist_ok=True)
print("z3", boot.z3mod().get_version_string())
