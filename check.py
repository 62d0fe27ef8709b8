#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough] [-v] [--only substring]"""
import sys, os, importlib
V = os.path.dirname(os.path.abspath(__file__))
for d in ('eng', 'specs', 'props'):
    sys.path.insert(0, os.path.join(V, d))
os.environ.setdefault('PYTHONHASHSEED', '0')
import runner
m = importlib.import_module(sys.argv[1])
sys.exit(runner.main(m.CHECK, sys.argv[2:]))
