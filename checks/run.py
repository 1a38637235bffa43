#!/usr/bin/env python3
import importlib, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core

if __name__ == "__main__":
    pid = sys.argv[1]
    for a in sys.argv[2:]:
        if a in ("quick", "thorough"):
            os.environ["VERIF_TIER"] = a
    m = importlib.import_module(pid.lower().replace("-", "_"))
    core.main(pid, m.check, getattr(m, "LEVEL", "exploration"))
