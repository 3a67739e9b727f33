#!/usr/bin/env python3
import argparse
import importlib
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
sys.dont_write_bytecode = True
import vpdriver
import registry

ap = argparse.ArgumentParser()
ap.add_argument("prop")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
ap.add_argument("-v", action="store_true")
ap.add_argument("--unit", action="append")
a = ap.parse_args()
m = registry.PROPS[a.prop]
sys.exit(vpdriver.check(a.prop, m["units"], a.tier, m, a.v, a.unit))
