#!/usr/bin/env python3
"""Warms Go's build cache (standard library, with and without the race detector).
Nothing depends on it: every check builds what it needs."""
import subprocess, sys
for p in ('C10', 'C24'):
    subprocess.run([sys.executable, 'check.py', p, '--cases', '1'], stdout=subprocess.DEVNULL)
