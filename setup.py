"""Checks that what the verifier needs is present (nothing is built)."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.environ.get('REPO', '/repo'))
sys.dont_write_bytecode = True
import z3
from dv import registry
print('z3', z3.get_version_string(), len(registry.load()), 'theorems')
