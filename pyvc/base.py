"""Engine set-up shared by all units."""
import os
import sys
from . import cymodel
from .interp import Engine
from .npmodel import NP, make_externals

SRC = os.environ.get('PYVC_SRC', '/repo/src')


def new_engine(src=None):
    e = Engine(src or SRC, make_externals())
    cymodel.register(e.externals)
    e.np = NP(e)
    return e
