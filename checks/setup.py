#!/usr/bin/env python3
"""Builds the instrumented variants the checks use (a check also builds what is missing or stale)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, drv, chk_conc, chk_safe
for v in ("asan", "asand", "vg", "tsan"):
    build.ensure(v, drv.HARNESS)
build.ensure("fuzz", chk_safe.FUZZ)
for v in ("conc", "tsanc"): build.ensure(v, chk_conc.CONC)
print("ready")
