"""loads all theorem modules"""
import importlib
import os
import sys


def load():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    if root not in sys.path:
        sys.path.insert(0, root)
    for f in sorted(os.listdir(os.path.join(root, 'theorems'))):
        if f.endswith('.py') and f != '__init__.py':
            importlib.import_module('theorems.' + f[:-3])
    from dv import api
    return api.THEOREMS


def load_map():
    return {t.key: t for t in load()}
