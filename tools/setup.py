#!/usr/bin/env python3
"""Builds the harness variants and has every specification parsed."""
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import multiprocessing.pool  # noqa: E402,F401
import run_check  # noqa: E402

exes = run_check.build_all(sorted(run_check.FLAGS))
print("built:", ", ".join(sorted(exes)))
