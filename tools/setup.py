#!/usr/bin/env python3
"""Pre-builds every check (each check can also build what it needs by itself)."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from harness.spec import SPEC
bad = 0
for p in SPEC:
    bad |= subprocess.run([sys.executable, os.path.join(V, "check.py"), p, "--build-only"]).returncode
sys.exit(1 if bad else 0)
