"""C16: measurement reduction recovers the bicycle that was measured.

The oracle is a forward model (mc/measure.py): for a known bicycle it computes
what ideal instruments would read.  The real reduction of those readings must
return that bicycle.
"""
import itertools
import math

import numpy as np
from uncertainties import ufloat

from mc import measure
from mc.bikes import Tree, nom, write_par
from mc.engine import Outcome, chunks, deviations, snap, uniq

from bicycleparameters import main as bpmain
import bicycleparameters as bp

ID = 'C16'
LEVEL = 'exploration'
TECHNIQUE = ('exhaustive bounded-deviation enumeration of synthetic bicycles x measuring set ups (all subsets of hanging orientations, fork, geometry, flywheel, '
             'number types), real reduction against an independent forward model of the instruments')
LEVEL_NOTE = ('All bicycles within 2 (thorough 3) deviations from a base over 2-5 values per parameter x {whole, split} x {two geometries} x {flywheel}; all '
              'subsets of 3..6 of 6 hanging angles per part, in several orders; number types and listing orders.')
RULE = 'one evaluation = one synthetic set of measurements reduced by the real code and compared with the true bicycle; distinct = distinct true parameter sets/set ups'
ASSUMPTIONS = ['hanging orientations at least 9 degrees apart (modulo half turns) and not vertical in bicycle axes', 'ideal pendulums', 'for the height/diameter geometry the foot of the front wheel offset lies ahead along the steer axis']

MENU = {'lam': [0.0, 0.05, 0.55], 'c': [0.0, -0.05, 0.2], 'w': [0.8, 1.6], 'rF': [0.341, 0.25, 0.42], 'rR': [0.2, 0.4], 'g': [1.62, 9.7],
        'mB': [1.0, 30.0], 'mR': [0.5], 'mF': [0.4, 6.0], 'xB': [0.0, 0.6], 'zB': [-0.3, -0.9], 'IBxz': [0.0, 0.2], 'IBxx': [2.0], 'IBzz': [0.2],
        'IByy': [0.3, 3.0], 'IFxx': [0.02, 0.2], 'IFyy': [0.05, 0.3], 'IRxx': [0.02], 'IRyy': [0.3]}
HM = {'mH': [1.0, 8.0], 'xH': [1.3, 0.7], 'zH': [-0.4, -1.0], 'IHxz': [0.0, 0.02], 'IHxx': [0.1], 'IHyy': [0.1], 'IHzz': [0.3]}
SM = {'mS': [1.0, 8.0], 'xS': [1.2], 'zS': [-0.4], 'ISxz': [0.0], 'ISyy': [0.3], 'ISxx': [0.3], 'ISzz': [0.2], 'mG': [0.7], 'xG': [0.9, 0.6], 'zG': [-1.1, -0.8],
      'IGxz': [0.0, 0.01], 'IGyy': [0.2], 'IGxx': [0.2], 'IGzz': [0.3]}
IM = {'nF': [1.0, 7.0], 'h2': [0.0], 'h3': [0.1], 'h5': [0.0], 'd1': [0.05], 'd2': [0.03], 'd3': [0.03], 'd4': [0.05], 'h6': [0.1], 'd5': [0.02], 'd6': [0.05],
      'l1': [0.0, 0.05], 'l2': [0.6], 'lF': [0.1], 'lR': [0.4], 'mP': [2.0], 'dP': [0.05], 'lP': [1.2], 'TtP1': [0.5, 2.0]}


def judge(o, p, split, geometry, fly, mp, sig, how=''):
    want = measure.truth(p, split, fly)
    before = snap(mp)
    keys = list(mp)
    par, extras = bpmain.calculate_benchmark_from_measured(mp)
    msg = lambda: '%s split=%r %s fly=%r: %r' % (how, split, geometry, fly, [
        (k, nom(par.get(k)) if k in par else None, want[k]) for k in want if k not in par or abs(nom(par[k]) - want[k]) > 1e-6*max(abs(want[k]), 0.01)])
    o.check(snap(mp) == before and list(mp) == keys, sig + ':measurements-changed', msg)
    o.check(set(want) <= set(par), sig + ':missing', lambda: '%r' % (set(want) - set(par)))
    for k in want:
        scale = max(abs(want[k]), 0.01)
        tol = 1e-8 if k[0] in 'wlcgrm' else 2e-7
        if k in par:
            o.check(abs(nom(par[k]) - want[k]) <= tol*scale, sig + ':' + k, msg)
    return par, extras


def bike(over):
    p = dict(measure.BASE)
    p.update(measure.FLY)
    p.update({k: v for k, v in over.items() if k in p})
    return p, {k: v for k, v in over.items() if k in measure.INSTR}


def run_lattice(case):
    o = Outcome()
    for over in case['overs']:
        p, ins = bike(over)
        if math.hypot(p['xB'], p['zB'] + p['rR']) < 0.02:
            continue  # no pendulum
        for split, geometry, fly in itertools.product((False, True), ('abc', 'w'), (False, True)):
            if (split and any(k in HM for k in over)) or (not split and any(k in SM for k in over)):
                continue
            if geometry == 'abc' and p['w']*math.sin(p['lam']) - (p['rF'] - p['rR'])*math.cos(p['lam']) < 0.01:
                continue  # the steer axis distance is measured as a positive length
            if fly and (len(over) > 1 or geometry == 'w'):
                continue
            ang = {}
            for q in 'BHSG':
                ok = [a for a in measure.ANG[q] if abs(math.cos(p['lam'] - math.radians(a))) > 0.05]
                ang[q] = ok[:6]
            mp = measure.measure(p, split, geometry, ang, fly, ins)
            judge(o, p, split, geometry, fly, mp, 'lattice', repr(over))
            o.key((repr(sorted(over.items())), split, geometry, fly))
    return o


def run_angles(case):
    """all subsets of hanging orientations of one part, in three orders"""
    o = Outcome()
    q, split = case['part_'], case['split']
    p, _ = bike(case['over'])
    for n in (3, 4, 5, 6):
        for sub in itertools.combinations(range(6), n):
            for order in (sub, sub[::-1], sub[1:] + sub[:1]):
                a = [measure.ANG[q][i] + case['shift'] for i in order]
                if not measure.nondegenerate(p, a):
                    o.trivial += 1
                    continue
                mp = measure.measure(p, split, case['geo'], {q: a})
                judge(o, p, split, case['geo'], False, mp, 'angles', '%s %r %r' % (q, a, case['over']))
                o.key((q, tuple(a), split))
    return o


def conv(v, kind, k):
    if kind == 'float':
        return float(v)
    if kind == 'np':
        return np.float64(v)
    if kind == 'u':
        return ufloat(v, 0.001*abs(v) + 1e-6)
    if kind == 'mixed':
        return ufloat(v, 0.001*abs(v) + 1e-6) if sum(map(ord, k)) % 2 else float(v)
    if kind == 'mixed2':
        return float(v) if sum(map(ord, k)) % 2 else ufloat(v, 0.001*abs(v) + 1e-6)
    if kind == 'int':
        return int(v) if float(v) == int(v) else float(v)
    raise ValueError(kind)


def run_types(case):
    """number types, listing orders, files"""
    o = Outcome()
    p, ins = bike(case['over'])
    split, geometry, fly = case['split'], case['geo'], case['fly']
    mp0 = measure.measure(p, split, geometry, None, fly, ins, extra=case.get('lat'))
    ref, _ = judge(o, p, split, geometry, fly, dict(mp0), 'types:plain')
    orders = {'sorted': sorted(mp0), 'reversed': sorted(mp0)[::-1], 'interleaved': sorted(mp0)[::2] + sorted(mp0)[1::2],
              'byend': sorted(mp0, key=lambda k: k[::-1])}
    for kind in ('float', 'np', 'u', 'mixed', 'mixed2', 'int'):
        for name, keys in sorted(orders.items()):
            mp = {k: conv(mp0[k], kind, k) for k in keys}
            par, extras = judge(o, p, split, geometry, fly, mp, 'types:%s' % kind, '%s %s' % (kind, name))
            for k in ('xcl', 'zcl'):
                o.check((k in par) == bool(case.get('lat')) and (k not in par or abs(nom(par[k]) - case['lat'][k]) < 1e-12), 'types:' + k, lambda: '%s %r' % (name, par.get(k)))
            o.check(set(par) == set(ref), 'types:keys', lambda: '%r' % (set(par) ^ set(ref)))
            o.check(all(abs(nom(par[k]) - nom(ref[k])) <= 1e-9*max(abs(nom(ref[k])), 0.01) for k in ref), 'types:differs', lambda: '%s %s' % (kind, name))
            # extra information: angles, lines through the mass centre, inertias about the pendulum axes
            for q in extras['betas']:
                for i, b in enumerate(extras['betas'][q]):
                    want = p['lam'] - math.radians(mp0['alpha%s%d' % (q, i + 1)])
                    o.check(abs(nom(b) - want) < 1e-9, 'extras:beta', lambda: '%s%d' % (q, i))
                    m, c = nom(extras['slopes'][q][i]), nom(extras['intercepts'][q][i])
                    o.check(abs(m*p['x' + q] + c - p['z' + q]) < 1e-7*(1 + abs(m)), 'extras:line', lambda: '%s%d' % (q, i))
                    u = np.array([math.cos(want), 0.0, -math.sin(want)])
                    J = u.dot(measure.tens(p, q)).dot(u)
                    o.check(abs(nom(extras['pendulumInertias'][q][i]) - J) < 1e-8*max(J, 1), 'extras:inertia', lambda: '%s%d' % (q, i))
            o.key((kind, name, split, geometry, fly))
    # the same through files and the loader
    with Tree() as t:
        write_par(t.path('bicycles', 'Synth', 'RawData', 'SynthMeasured.txt'), mp0)
        if not (fly and False):
            b = bp.Bicycle('Synth', pathToData=t.root)
            got = b.parameters['Benchmark']
            o.check(set(got) == set(ref) and all(abs(nom(got[k]) - nom(ref[k])) <= 1e-9*max(abs(nom(ref[k])), 0.01) for k in ref), 'types:file', lambda: '%r' % got)
    return o


def run(case):
    return {'lattice': run_lattice, 'angles': run_angles, 'types': run_types}[case['part']](case)


CHUNK = 1


def cases(tier):
    # the point where a lateral force acts is handed through
    lats = itertools.cycle([{'xcl': 0.2, 'zcl': -0.9}, None, {'xcl': -0.3, 'zcl': 0.1}, {'xcl': 0.0, 'zcl': 0.0}, {'xcl': 1.4, 'zcl': 0.6}])
    for split, geo, fly in itertools.product((False, True), ('abc', 'w'), (False, True)):
        yield {'lat': next(lats), 'part': 'types', 'over': {}, 'split': split, 'geo': geo, 'fly': fly}
        yield {'part': 'types', 'over': {'lam': 0.1, 'rF': 0.25, 'xB': 0.5, 'c': -0.02}, 'split': split, 'geo': geo, 'fly': fly}
    for q, split in (('B', False), ('H', False), ('S', True), ('G', True), ('B', True)):
        for shift in (0.0, 7.0, -11.0) if tier == 'quick' else (0.0, 7.0, -11.0, 30.0, 90.0, 181.0, 360.0):
            for over in ({}, {'lam': 0.1, 'rF': 0.3}):
                yield {'part': 'angles', 'part_': q, 'split': split, 'shift': shift, 'over': over, 'geo': 'w' if shift else 'abc'}
    menu = dict(MENU, **HM)
    menu.update(SM)
    menu.update(IM)
    pairs = deviations(menu, None, 2)
    if tier == 'quick':
        # one value per parameter in pairs, all values alone
        first = {k: v[:1] for k, v in menu.items()}
        pairs = itertools.chain(deviations(menu, None, 1), (d for d in deviations(first, None, 2) if len(d) == 2))
    for c in chunks(pairs, 25):
        yield {'part': 'lattice', 'overs': c}
    if tier == 'thorough':
        core = {k: MENU[k][:1] for k in ('lam', 'c', 'w', 'rF', 'rR', 'xB', 'zB', 'IBxz', 'mB', 'g')}
        core.update({k: v[:1] for k, v in list(HM.items())[:4]})
        core.update({k: IM[k][:1] for k in ('h2', 'd1', 'd3', 'lF', 'TtP1', 'l1')})
        for c in chunks((d for d in deviations(core, None, 4) if len(d) > 2), 25):
            yield {'part': 'lattice', 'overs': c}
