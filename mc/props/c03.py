"""C03: the feedback model is the open loop model closed by its gains.

Enumerated: every one of the 3^8 ways the eight gains can be absent / scalar /
array (scalars and arrays as floats or integers), crossed with the other
overridden parameters (none, scalar or array speed, gravity, mass, geometry),
stored versus overridden gains, single gains over a value menu, and parameter
deviations.  Oracle: A - B K from the independent Whipple reference.
"""
import itertools

import numpy as np

from mc import live, refs
from mc.engine import Outcome, chunks, close, deviations, uniq
from mc.models_common import make, make_set

from bicycleparameters import models, parameter_sets

ID = 'C03'
LEVEL = 'exploration'
TECHNIQUE = ('exhaustive enumeration of all 3^8 gain configurations x other overrides x number types on the real model, '
             'oracle: independent reference A - B K per index')
LEVEL_NOTE = ('All 3^8 absent/scalar/array gain patterns x 7 (thorough 21) other-override patterns x int/float; single gains over a value menu x all single '
              '(thorough double) parameter deviations. Gain values are fixed small menus.')
RULE = 'one evaluation = one (A, B) at one index compared with A - B K of the reference'
ASSUMPTIONS = ['the open loop reference is validated against the published benchmark (C02)']

ZERO = {k: 0.0 for k in refs.GAINS}
OTHERS_Q = [{}, {'v': 4.0}, {'v': [1.0, 3.0]}, {'mB': [50.0, 90.0]}, {'lam': [0.2, 0.5], 'g': 1.62},
            {'w': [1.0, 1.3], 'v': [2, 6]}, {'IBxx': 8, 'v': 3}, {'g': [9.81, 1.62]},
            {'g': [3.7, 9.81], 'v': [2.0, 2.0]}]
OTHERS_T = OTHERS_Q + [{'c': [0.0, 0.1]}, {'rF': [0.3, 0.4]}, {'rR': [0.3, 0.4], 'v': 5.0}, {'g': [0.0, 9.81]},
                       {'IFyy': [0.1, 0.4]}, {'mH': [1.0, 5.0]}, {'zB': [-1.0, -0.5]}, {'xB': 0.1}, {'IHxz': [0.0, 0.1]},
                       {'v': np.float32(3.0)}, {'v': (1, 2)}, {'mF': [1, 3]}, {'lam': 0.0}, {'v': 0}]


def gain_values(kind, j, ints):
    s = (j + 1)*(-1)**j*3
    if kind == 1:
        return s if ints else s + 0.25
    return [s, 2*s - 1] if ints else [s + 0.25, 0.5 - s]


def expected(base, over, i):
    p = dict(base)
    for k, v in over.items():
        p[k] = float(np.asarray(v, dtype=float).ravel()[i]) if np.ndim(v) else float(v)
    return refs.feedback_ss(p)


def compare(o, res, base, over, sig):
    A, B = res
    arr = any(np.ndim(v) for v in over.values())
    n = 2 if arr else 1
    if not o.check(np.shape(A) == ((2, 4, 4) if arr else (4, 4)) and np.shape(B) == ((2, 4, 2) if arr else (4, 2)),
                   sig + ':shape', lambda: '%r %r for %r' % (np.shape(A), np.shape(B), over)):
        return
    for i in range(n):
        eA, eB = expected(base, over, i)
        a, b = (A[i], B[i]) if arr else (A, B)
        o.check(close(a, eA, 1e-10, 1e-11) and close(b, eB, 1e-10, 1e-11), sig,
                lambda: 'overrides %r index %d\ngot %r\nexpected %r' % (over, i, a, eA))
        o.key(uniq(eA))
        o.states += 1


def run_patterns(case):
    o = Outcome()
    base0 = dict(refs.FB, **ZERO)
    m0 = make('FB', ZERO)
    base1 = dict(refs.FB)
    m1 = make('FB')
    others = OTHERS_Q if case['tier'] == 'quick' else OTHERS_T
    for pat in case['pats']:
        for ints in (False, True):
            g = {k: gain_values(t, j, ints) for j, (k, t) in enumerate(zip(refs.GAINS, pat)) if t}
            for h, other in enumerate(others):
                over = dict(g, **other)
                # two stored bicycles: with zero and with non zero gains
                use1 = (sum(pat) + h + ints) % 2
                m, base = (m1, base1) if use1 else (m0, base0)
                if 2 in pat and (ints + h) % 3 == 0:
                    over = {k: (np.array(v) if isinstance(v, list) else v) for k, v in over.items()}
                compare(o, m.form_state_space_matrices(**over), base, over, 'gains')
    o.check(m0.parameter_set.parameters == {k: float(v) for k, v in base0.items()}, 'stored', '')
    o.check(m1.parameter_set.parameters == {k: float(v) for k, v in base1.items()}, 'stored', '')
    return o


def run_points(case):
    """stored parameters and gains, single gains at a time"""
    o = Outcome()
    for dev in case['pts']:
        p = dict(refs.MEIJ, **ZERO)
        p.update(dev)
        if p['mH'] + p['mF'] <= 0 or np.linalg.cond(refs.whipple(p)[0]) > 1e7:
            o.trivial += 1
            continue
        s = parameter_sets.Meijaard2007WithFeedbackParameterSet({k: float(v) for k, v in p.items()}, True)
        m = models.Meijaard2007WithFeedbackModel(s)
        compare(o, m.form_state_space_matrices(), p, {}, 'zero-gains')
        # all-zero gains give the open loop model
        ol = models.Meijaard2007Model(parameter_sets.Meijaard2007ParameterSet(
            {k: float(v) for k, v in p.items() if k not in ZERO}, True))
        eA, eB = ol.form_state_space_matrices()
        A, B = m.form_state_space_matrices()
        o.check(close(A, eA) and close(B, eB), 'open-loop', lambda: repr(dev))
        for k in refs.GAINS:
            for v in (-7.5, 1e-3, 120.0):
                q = dict(p, **{k: v})
                sq = parameter_sets.Meijaard2007WithFeedbackParameterSet({a: float(b) for a, b in q.items()}, True)
                mq = models.Meijaard2007WithFeedbackModel(sq)
                compare(o, mq.form_state_space_matrices(), q, {}, 'stored-gain')
            compare(o, m.form_state_space_matrices(**{k: 5}), p, {k: 5}, 'one-gain-int')
            over = {k: [2, -3], 'v': 3}
            compare(o, m.form_state_space_matrices(**over), p, over, 'one-gain-array')
            ev, vec = m.calc_eigen(**{k: 2.5})
            A = expected(p, {k: 2.5}, 0)[0]
            o.check(refs.charpoly_error(A, ev) < 1e-8 and refs.eig_residual(A, ev, vec) < 1e-8, 'eigen', lambda: repr((dev, k)))
    return o


def run_tiny(case):
    """no gain is too small: without gravity at rest the state matrix is nothing but the gains"""
    o = Outcome()
    rest = {'v': 0.0, 'g': 0.0}
    m = make('FB', ZERO)
    for size in case['sizes']:
        for j, k in enumerate(refs.GAINS):
            for over in ({k: size}, {k: [size, -size]}, {k: [0.0, size]}, {k: size, refs.GAINS[(j + 3) % 8]: [0.0, 2*size]}, {'v': [0.0, 0.0], k: size}):
                full = {**rest, **over}
                arr = any(isinstance(v, list) for v in full.values())
                A, B = m.form_state_space_matrices(**full)
                for i in range(2 if arr else 1):
                    eA = expected(dict(refs.FB, **ZERO), full, i)[0]
                    a = np.asarray(A[i] if arr else A)
                    o.check(a.shape == (4, 4) and np.allclose(a[2:], eA[2:], rtol=1e-9, atol=1e-9*np.max(np.abs(eA[2:]))), 'tiny-gain', lambda: '%r %d got %r want %r' % (over, i, a, eA))
                    o.states += 1
                    o.key((size, str(over), i))
    return o


def run(case):
    if case.get('k') == 'live':
        return live.run(Outcome(), 'FB', case['seqs'], live.matrices)
    if 'sizes' in case:
        return run_tiny(case)
    return run_patterns(case) if 'pats' in case else run_points(case)


def cases(tier):
    for n in (2, 3) if tier == 'quick' else (2, 3, 4):
        for blk in chunks(live.sequences('FB', n), 100):
            yield {'k': 'live', 'seqs': [list(x) for x in blk]}
    yield {'k': 'tiny', 'sizes': [1e-12, 1e-9, 1e-6, 1e-3, 1e6, 1e12]}
    menu = {k: v for k, v in refs.W_MENU.items()}
    for blk in chunks(deviations(menu, None, 1 if tier == 'quick' else 2), 4 if tier == 'quick' else 20):
        yield {'k': 'points', 'pts': blk}
    for blk in chunks(sorted(itertools.product((0, 1, 2), repeat=8), key=lambda t: sum(1 for x in t if x)), 60):
        yield {'k': 'patterns', 'pats': [list(x) for x in blk], 'tier': tier}
