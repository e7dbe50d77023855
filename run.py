#!/usr/bin/env python3
"""Entry point of every check: run.py <property id>.  VERIF_SEED and VERIF_TIER come from the environment."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import importlib, pkgutil
import vlib
import checks

registry = {}
for m in pkgutil.iter_modules(checks.__path__):
    mod = importlib.import_module("checks." + m.name)
    registry.update(getattr(mod, "CHECKS", {}))

if __name__ == "__main__":
    vlib.main(registry)
