#!/usr/bin/env python3
"""Builds the machines once, to show that they build offline (every check builds what it needs itself)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
ok = check.build("seq") and check.build("conc", check.CONC_ENV) and check.build("instr") and check.build("spawn")
sys.exit(0 if ok else 1)
