#!/usr/bin/env python3
"""check.py <property id> : run the check of one property (tier from VERIF_TIER)."""
import importlib, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core
if len(sys.argv) > 2:
    os.environ['VERIF_TIER'] = sys.argv[2]
prop = sys.argv[1]
mod = importlib.import_module('checks.' + prop.lower())
sys.exit(core.main(prop, mod.run))
