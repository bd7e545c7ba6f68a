#!/usr/bin/env python3
"""Builds the library and all monitors, in every flavour any check uses."""
import sys, time
t0 = time.time()
from checks import CHECKS
import importlib.util, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
import run_check
need = {}
for c in CHECKS.values():
    for r in c["runs"]: need.setdefault(run_check.built(r.get("flavour", "plain")), set()).add(r["target"])
for fl, ts in sorted(need.items(), key=lambda x: x[0] != "plain"):
    if time.time() - t0 > 1000: break   # a slow machine: the checks build the rest themselves
    if not run_check.build(fl, sorted(ts)): sys.exit(2)
