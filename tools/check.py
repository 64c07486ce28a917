#!/usr/bin/env python3-vt
"""check.py ID : runs the check of one property (quick, or thorough when VERIF_TIER=thorough)."""
import importlib.util, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [f"{ROOT}/tools", f"{ROOT}/checks"]
import runner
pid = sys.argv[1]
spec = importlib.util.spec_from_file_location(pid, f"{ROOT}/checks/{pid}.py")
mod = importlib.util.module_from_spec(spec)
spec.loader.exec_module(mod)
chk = runner.Check(pid, getattr(mod, "LEVEL", "model_checking"))
mod.run(chk)
chk.done()
