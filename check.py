#!/usr/bin/env python3
"""python3 check.py PROPERTY: run the check of a property (VERIF_SEED, VERIF_TIER)"""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf.core import main
sys.exit(main(sys.argv))
