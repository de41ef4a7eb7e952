"""Deterministic simulation of the amlib cores (see /verif/DESIGN.md)."""
import os, sys, warnings
sys.dont_write_bytecode = True
# never trust byte code lying around in the repository: a changed source must be seen
sys.pycache_prefix = "/nonexistent-pycache"
REPO = os.environ.get("AMLIB_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, REPO)
sys.path.append(os.path.join(VERIF, "dst", "stubs"))
warnings.simplefilter("ignore")
