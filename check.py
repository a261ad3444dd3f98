#!/usr/bin/env python3
"""check.py <property id>: decides one property (see DESIGN.md)."""
import importlib, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import core
pid = sys.argv[1]
core.main(pid, importlib.import_module("checks." + pid).run)
