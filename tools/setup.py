#!/usr/bin/env python3
"""setup: nothing to compile; checks that the solvers and the code under test import"""
import os
import sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get('PYVC_REPO', '/repo'))
import z3
import registry
import xlrd
print('z3', z3.get_version_string(), 'xlrd', xlrd.__version__, 'properties', len(registry.PROPS))
for d in ('evidence', 'replays'):
    os.makedirs(os.path.join(HERE, d), exist_ok=True)
