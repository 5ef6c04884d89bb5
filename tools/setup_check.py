"""setup: nothing is installed or generated; confirm that the tools the checks need are there and that the tree parses"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3
from pyvc.engine import World
w = World(os.environ.get("VERIF_REPO", "/repo"))
w.module("a_sync")
print("z3", z3.get_version_string(), "modules parsed:", len(w.modules))
