"""Contracts on the functions of /repo.  MODULES maps a property to the contract modules stating it."""
import importlib
import os

MODULES = {}


def load(prop=None):
    here = os.path.dirname(os.path.abspath(__file__))
    for f in sorted(os.listdir(here)):
        if f.startswith('c') and f.endswith('.py'):
            importlib.import_module('contracts.' + f[:-3])
