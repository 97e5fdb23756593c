import importlib
from . import base

MODS = ['one_dim', 'one_dim2', 'utils_c', 'density', 'gfs', 'smc', 'multi', 'sigma', 'ssm', 'laws']


def contracts():
    for m in MODS:
        importlib.import_module('contracts.' + m)
    return base.REGISTRY
