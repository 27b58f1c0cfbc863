#!/usr/bin/env python3
"""nothing to build: checks that the simulator imports and that the code under test loads"""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from dst import env
p = subprocess.run([env.python(), '-B', '-s', '-c', 'from dst import env; env.boot(); print("ok")'], cwd=V, env=env.child_env('0'))
sys.exit(p.returncode)
