"""C18: steer assembly inertia equals that of the selected parts for every option.

All 32 option combinations are evaluated on every bicycle of a bounded
deviation set (whole and split forks, number types, with and without flywheel
and rider) and compared with an independent rigid body computation.
"""
import itertools
import math

import numpy as np

from mc import refs
from mc.bikes import load_params, nom, sd, shipped, unc
from mc.engine import Outcome, chunks, deviations, snap

ID = 'C18'
LEVEL = 'exploration'
TECHNIQUE = ('exhaustive enumeration: all 32 options x all bicycles within a bounded number of parameter deviations x fork/flywheel/rider/number type '
             'configurations, real method against an independent rigid body oracle')
LEVEL_NOTE = 'All bicycles within 2 (thorough 3) deviations over the 22 involved parameters (2-4 values each), whole and split; every shipped bicycle, with and without rider.'
RULE = 'one evaluation = one entry of judgement (tensor, type, error, unchanged parameters) of one option combination on one bicycle'
ASSUMPTIONS = ['the flywheel is not part of the steer assembly (documented)']

BASE = {k: v for k, v in refs.BENCH.items() if k != 'v'}
SPLIT = {'mS': 2.4, 'xS': 0.95, 'zS': -0.55, 'ISxx': 0.05, 'ISyy': 0.06, 'ISzz': 0.02, 'ISxz': -0.006,
         'mG': 1.7, 'xG': 0.82, 'zG': -0.98, 'IGxx': 0.07, 'IGyy': 0.03, 'IGzz': 0.05, 'IGxz': 0.012}
MENU = {'w': [0.8, 1.5], 'c': [0.0, -0.06, 0.25], 'lam': [0.0, -0.15, 0.7, 1.2], 'rF': [0.2, 0.5], 'mF': [0.5, 9.0], 'IFxx': [0.02], 'IFyy': [0.05],
        'mH': [0.3, 12.0], 'xH': [0.0, 1.4], 'zH': [0.0, -1.2], 'IHxx': [0.3], 'IHyy': [0.4], 'IHzz': [0.2], 'IHxz': [0.0, 0.05]}
SMENU = {'mS': [0.2], 'xS': [1.3, 0.0], 'zS': [-0.2, 0.0], 'ISxz': [0.0, 0.02], 'ISzz': [0.2], 'ISyy': [0.2], 'ISxx': [0.2], 'mG': [9.0], 'xG': [1.1, 0.0], 'zG': [-0.5, 0.0], 'IGxz': [-0.02, 0.0],
         'IGzz': [0.2], 'IGyy': [0.2], 'IGxx': [0.2]}


def parts_of(par, handlebar, fork, wheel):
    out = []
    p = 'H' if handlebar and fork else 'S' if fork else 'G' if handlebar else None
    if p:
        if 'm' + p not in par:
            return None
        out.append((par['m' + p], np.array([par['x' + p], 0, par['z' + p]]), refs.tensor(*[par['I' + p + e] for e in ('xx', 'xz', 'yy', 'zz')])))
    if wheel:
        out.append((par['mF'], np.array([par['w'], 0, -par['rF']]), refs.tensor(par['IFxx'], 0, par['IFyy'], par['IFxx'])))
    return out


def oracle(par, handlebar, fork, wheel, about):
    ps = parts_of(par, handlebar, fork, wheel)
    if ps is None:
        return None
    I = np.zeros((3, 3))
    if not ps:
        return I
    m = sum(p[0] for p in ps)
    c = sum(p[0]*p[1] for p in ps)/m
    for mm, r, II in ps:
        d = r - c
        I = I + II + mm*(np.dot(d, d)*np.eye(3) - np.outer(d, d))
    l = par['lam']
    R = np.array([[math.cos(l), 0, -math.sin(l)], [0, 1, 0], [math.sin(l), 0, math.cos(l)]])
    I = R.dot(I).dot(R.T)
    if about:
        # distance from the steer axis through (w + c, 0) pointing down along (sin, cos)
        d = (c[0] - par['w'] - par['c'])*math.cos(l) - c[2]*math.sin(l)
        I = I + m*d*d*np.diag([0, 1, 1])
    return I


def judge(o, b, how, types=True):
    par = b.parameters['Benchmark']
    p = nom(par)
    before = snap(par)
    for h, f, w, a in itertools.product((True, False), repeat=4):
        want = oracle(p, h, f, w, a)
        res = []
        for n in (False, True):
            o.transitions += 1
            msg = lambda: '%s handlebar=%r fork=%r wheel=%r about=%r nominal=%r' % (how, h, f, w, a, n)
            try:
                got = b.steer_assembly_moment_of_inertia(handlebar=h, fork=f, wheel=w, aboutSteerAxis=a, nominal=n)
            except ValueError as e:
                o.check(want is None and 'separately' in str(e) or want is None, 'unexpected-error', lambda: msg() + ' %r' % e)
                continue
            if not o.check(want is not None, 'no-error', msg):
                continue
            got = np.asarray(got)
            o.check(got.shape == (3, 3), 'shape', msg)
            g = np.asarray(nom(got), dtype=float)
            scale = float(np.max(np.abs(want))) or 1.0
            o.check(bool(np.all(np.abs(g - want) <= 1e-10*scale)), 'tensor:%s%s%s%s' % ('h'*h, 'f'*f, 'w'*w, 'a'*a), lambda: msg() + ' got %r want %r' % (g.tolist(), want.tolist()))
            res.append(g)
            if n:
                o.check(got.dtype.kind == 'f', 'nominal-type', lambda: msg() + ' ' + str(got.dtype))
            elif types and want.any() and any(sd(par[k]) for k in par):
                o.check(sum(sd(x) for x in got.ravel()) > 0, 'deviation-lost', msg)
        if len(res) == 2:
            o.check(bool(np.all(np.abs(res[0] - res[1]) <= 1e-13*np.max(np.abs(res[0])) + 1e-15)), 'nominal-differs', how)
    o.check(snap(par) == before, 'parameters-changed', how)
    # the documented defaults: everything, about the mass centre, with uncertainties
    d = b.steer_assembly_moment_of_inertia()
    e = b.steer_assembly_moment_of_inertia(True, True, True, False, False)
    o.check(bool(np.all(np.abs(np.asarray(nom(np.asarray(d)), float) - np.asarray(nom(np.asarray(e)), float)) < 1e-14)), 'defaults', how)


def run(case):
    o = Outcome()
    if case['kind'] == 'shipped':
        name, raw, rider = case['item']
        b = shipped(name, forceRawCalc=raw)
        if rider:
            b.add_rider(rider)
        judge(o, b, '%s raw=%r rider=%r' % (name, raw, rider), types=False)
        o.key(case['item'])
        return o
    for over, split, kind, fly in case['items']:
        par = dict(BASE, **(SPLIT if split else {}))
        par.update(over)
        if fly:
            par.update({'mD': 3.4, 'IDxx': 0.06, 'IDyy': 0.11})
        how = '%r split=%r %s fly=%r' % (over, split, kind, fly)
        if split == 'S':
            par = {k: v for k, v in par.items() if not (k[0] in 'mxzI' and len(k) > 1 and k[1] == 'G')}
        q = par if kind == 'f' else unc(par) if kind == 'u' else {k: (unc({k: v})[k] if i % 3 == 0 else v) for i, (k, v) in enumerate(sorted(par.items()))}
        b = load_params(q)
        judge(o, b, how, types=kind == 'u')
        o.key((str(over), split, kind, fly))
    return o


CHUNK = 1


def cases(tier):
    deep = tier != 'quick'
    items = [(v, False, 'f', False) for v in deviations(MENU, None, 3 if deep else 2)]
    both = dict(MENU, **SMENU)
    items += [(v, True, 'f', False) for v in deviations(both, None, 2 if deep else 1)]
    if not deep:
        items += [(v, True, 'f', False) for v in deviations(SMENU, None, 2)]
    items += [(v, s, k, fl) for v in deviations(MENU, None, 1) for s in (False, True, 'S') for k in ('f', 'u', 'm') for fl in (False, True)
              if (k, fl) != ('f', False) or s == 'S']
    for b in chunks(items, 40):
        yield {'kind': 'lattice', 'items': [list(x) for x in b]}
    for name in ('Benchmark', 'Browser', 'Browserins', 'Crescendo', 'Fisher', 'Pista', 'Rigid', 'Yellow', 'Yellowrev', 'Balanceassistv1'):
        yield {'kind': 'shipped', 'item': [name, False, None]}
    for name, raw, rider in (('Browser', False, 'Jason'), ('Rigid', False, 'Jason'), ('Balanceassistv1', False, 'Jason')) + (
            (('Rigid', True, None), ('Rigid', True, 'Jason')) if deep else ()):
        yield {'kind': 'shipped', 'item': [name, raw, rider]}
