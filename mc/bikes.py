"""Bicycle objects made through the real loader from files in a scratch
directory, plus helpers to build parameter and measurement files."""
import copy
import os
import shutil
import tempfile

import numpy as np
from uncertainties import ufloat

from mc.engine import REPO, SCRATCH

DATA = os.path.join(REPO, 'data')


def write_par(path, par):
    """plain text parameter file written by the harness (not by the code under
    test)"""
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        for k in sorted(par):
            v = par[k]
            if hasattr(v, 'nominal_value'):
                f.write('%s = %r +/- %r\n' % (k, float(v.nominal_value), float(v.std_dev)))
            else:
                f.write('%s = %r\n' % (k, float(v)))


def scratch(tag='w'):
    return tempfile.mkdtemp(prefix=tag + '-', dir=SCRATCH)


def load_params(par, name='Synth', root=None, **kw):
    """Bicycle loaded from a Benchmark parameter file holding ``par``"""
    import bicycleparameters as bp
    own = root is None
    root = root or scratch('bike')
    try:
        write_par(os.path.join(root, 'bicycles', name, 'Parameters', name + 'Benchmark.txt'), par)
        return bp.Bicycle(name, pathToData=root, **kw)
    finally:
        if own:
            shutil.rmtree(root, ignore_errors=True)


_CACHE = {}


def shipped(name, **kw):
    """a fresh copy of a shipped bicycle"""
    import bicycleparameters as bp
    key = (name, tuple(sorted(kw.items())))
    if key not in _CACHE:
        _CACHE[key] = bp.Bicycle(name, pathToData=DATA, **kw)
    return copy.deepcopy(_CACHE[key])


def nom(x):
    """nominal values of anything"""
    if isinstance(x, dict):
        return {k: nom(v) for k, v in x.items()}
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return np.array([nom(v) for v in x.ravel()], dtype=float).reshape(x.shape)
        return x
    if isinstance(x, (list, tuple)):
        return type(x)(nom(v) for v in x)
    return float(x.nominal_value) if hasattr(x, 'nominal_value') else x


def sd(x):
    if isinstance(x, np.ndarray):
        return np.array([sd(v) for v in x.ravel()], dtype=float).reshape(x.shape)
    return float(x.std_dev) if hasattr(x, 'std_dev') else 0.0


def unc(par, rel=0.01):
    """the same parameters as independent uncertain numbers"""
    return {k: ufloat(float(v), rel*abs(float(v)) + 1e-4) for k, v in par.items()}


class Tree(object):
    """scratch data tree; use as a context manager"""

    def __enter__(self):
        self.root = scratch('tree')
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.root, ignore_errors=True)

    def path(self, *p):
        return os.path.join(self.root, *p)

    def copy_bike(self, name, raw=True, par=True, new=None):
        new = new or name
        src = os.path.join(DATA, 'bicycles', name)
        dst = self.path('bicycles', new)
        os.makedirs(dst, exist_ok=True)
        if raw and os.path.isdir(os.path.join(src, 'RawData')):
            shutil.copytree(os.path.join(src, 'RawData'), os.path.join(dst, 'RawData'))
        if par and os.path.isdir(os.path.join(src, 'Parameters')):
            shutil.copytree(os.path.join(src, 'Parameters'), os.path.join(dst, 'Parameters'))
        return dst

    def snapshot(self):
        out = {}
        for d, ds, fs in os.walk(self.root):
            for x in ds:
                out[os.path.relpath(os.path.join(d, x), self.root) + '/'] = None
            for x in fs:
                p = os.path.join(d, x)
                with open(p, 'rb') as f:
                    out[os.path.relpath(p, self.root)] = f.read()
        return out
