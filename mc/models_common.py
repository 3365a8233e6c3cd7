"""Construction of model objects from plain dictionaries (public API only)."""
import warnings

import numpy as np

from bicycleparameters import models, parameter_sets
from . import refs

KINDS = ('W', 'FB', 'L')
BASES = {'W': refs.MEIJ, 'FB': refs.FB, 'L': refs.LEAN}


def make_set(kind, over=None):
    p = dict(BASES[kind])
    if over:
        p.update(over)
    p = {k: float(v) for k, v in p.items()}
    if kind == 'W':
        return parameter_sets.Meijaard2007ParameterSet(p, True)
    if kind == 'FB':
        return parameter_sets.Meijaard2007WithFeedbackParameterSet(p, True)
    return parameter_sets.MooreRiderLean2012ParameterSet(p)


def make(kind, over=None):
    s = make_set(kind, over)
    if kind == 'W':
        return models.Meijaard2007Model(s)
    if kind == 'FB':
        return models.Meijaard2007WithFeedbackModel(s)
    return models.MooreRiderLean2012Model(s)


def call(model, op, over):
    """runs one query, returns tuple of arrays"""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        if op == 'can':
            r = model.form_reduced_canonical_matrices(**over)
        elif op == 'ss':
            r = model.form_state_space_matrices(**over)
        elif op == 'eig':
            r = model.calc_eigen(**over)
        elif op == 'left':
            r = model.calc_eigen(left=True, **over)
        else:
            raise ValueError(op)
    return tuple(np.asarray(x) for x in r), [str(x.message) for x in w]
