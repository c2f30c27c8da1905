"""Access to the Hamiltonian experiment code with HOME in a scratch directory."""
import os, sys, shutil, tempfile, contextlib
import numpy as np
from . import common


def load():
    import collections, collections.abc
    if not hasattr(collections, 'Iterable'): collections.Iterable = collections.abc.Iterable
    p = os.path.join(common.REPO, 'experiments')
    if p not in sys.path: sys.path.insert(0, p)
    os.environ.setdefault('MPLBACKEND', 'Agg')
    import trainer.hamiltonian_dynamics as hd
    return hd


@contextlib.contextmanager
def home():
    """a scratch HOME (and working directory), removed afterwards"""
    old, cwd = os.environ.get('HOME'), os.getcwd()
    d = tempfile.mkdtemp(prefix='mc_home_')
    os.environ['HOME'] = d
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(cwd)
        if old is None: os.environ.pop('HOME', None)
        else: os.environ['HOME'] = old
        shutil.rmtree(d, ignore_errors=True)
