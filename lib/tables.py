"""id -> check function, from every chk_* module"""
import glob, importlib, os
TABLE = {}
for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "chk_*.py"))):
    TABLE.update(importlib.import_module(os.path.basename(f)[:-3]).TABLE)
