#!/usr/bin/env python3
"""Checks that the tool chain and the offline crates are there; every check builds what it needs itself."""
import subprocess, sys, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import instrument
instrument.generate(os.path.join(ROOT, "mc_sched", "gen", "bitboost"), 2)
code = 0
for crate in ("mc", "mc_rand", "mc_sched"):
    code |= subprocess.run(["cargo", "metadata", "--offline", "--format-version", "1", "--locked"],
                           cwd=os.path.join(ROOT, crate), stdout=subprocess.DEVNULL).returncode
sys.exit(code)
