import importlib


def table():
    """property -> (function, level)"""
    t = {}
    for m in ('sentences', 'names', 'options', 'region', 'reader', 'operators', 'chars', 'limits', 'gaps', 'compose', 'session', 'ast', 'types', 'literals', 'scopes', 'queries'):
        t.update(importlib.import_module('mz.checks.' + m).CHECKS)
    return t
