"""C04: the leaning rider model reduces to the rigid rider bicycle.

Enumerated: all assignments differing from the base rider/bicycle in at most k
of the 37 parameters.  Oracle: an independent virtual-work derivation of the
full three degree of freedom lateral dynamics and the rolling kinematics, whose
locked-lean part is itself compared with the Whipple reference; the laws of the
property are additionally checked on the matrices returned by the code.
"""
import numpy as np

from mc import live, refs
from mc.engine import Outcome, chunks, close, deviations, uniq
from mc.models_common import make

ID = 'C04'
LEVEL = 'exploration'
TECHNIQUE = ('bounded explicit-state enumeration of the parameter space (all deviations up to a bound) executed on the real '
             'model, oracle: independent derivation of the lateral dynamics, locked-lean reduction to the reference Whipple model and rolling kinematics')
LEVEL_NOTE = ('All assignments with at most 2 (thorough 3) of the 37 parameters moved over their menus (zeros, sign changes, other wheel sizes), stored '
              'and as overrides. Assumes errors need no more simultaneous deviations than that.')
RULE = 'one evaluation = one law or matrix compared at one parameter assignment'
ASSUMPTIONS = ['rider lean hinge is parallel to the ground in the symmetry plane, as the source dissertation defines',
               'both wheels touch the ground and the mass matrix is well conditioned']

ROWS, ANG = [8, 10, 11], [3, 5, 7]
MENU = {
    'c9': [0.0, 12.0], 'k9': [128.0, 9.3], 'v': [-4.0, 0.0, 1e-3, 8.0], 'g': [0.0, 1.62],
    'd1': [0.7, 1.2], 'd2': [0.2, 0.6], 'd3': [-0.05, 0.0, 0.2], 'd4': [-0.2, 0.0, 0.3],
    'rf': [0.25, 0.5], 'rr': [0.25, 0.5],
    'ic11': [1.5, 6.0], 'ic22': [0.7, 9.0], 'ic31': [-0.7, 0.0, 0.9], 'ic33': [0.9, 4.0],
    'id11': [0.03, 0.9], 'id22': [0.05, 1.9], 'ie11': [0.1, 1.3], 'ie22': [0.05, 2.0], 'ie31': [-0.08, 0.0, 0.1],
    'ie33': [0.03, 0.8], 'if11': [0.02, 0.7], 'if22': [0.04, 1.7],
    'ig11': [1.0, 7.0], 'ig22': [0.5, 8.0], 'ig31': [-0.6, 0.0, 0.8], 'ig33': [0.5, 4.0],
    'l1': [-0.2, 0.0, 0.9], 'l2': [-0.9, 0.0, 0.3], 'l3': [-0.3, 0.0, 0.4], 'l4': [-0.9, 0.0, 0.3],
    'l5': [-0.4, 0.0, 0.6], 'l6': [-0.8, 0.0, 0.3],
    'mc': [5.0, 90.0], 'md': [0.5, 14.0], 'me': [0.5, 14.0], 'mf': [0.5, 14.0], 'mg': [3.0, 120.0]}




def point(o, dev, over):
    p = dict(refs.LEAN, **dev)
    try:
        eA, eB = refs.lean_ss(p)
        M = refs.lean_matrices(p)[0]
    except ValueError:          # no such figure
        o.trivial += 1
        return
    if np.linalg.cond(M) > 1e8 or refs.lean_bodies(p)[1]['w'] < 0.05:
        o.trivial += 1
        return
    if over:
        A, B = make('L').form_state_space_matrices(**dev)
    else:
        A, B = make('L', dev).form_state_space_matrices()
    A, B = np.asarray(A, dtype=float), np.asarray(B, dtype=float)
    sig = 'override' if over else 'stored'
    o.states += 1
    if not o.check(A.shape == (12, 12) and B.shape == (12, 3), 'shape', ''):
        return
    o.key(uniq(eA[8:]))
    tol = 1e-9 + 1e-14*np.linalg.cond(M)
    sc = np.max(np.abs(eA[8:]))
    kin = list(range(8)) + [9]
    o.check(np.allclose(A[kin], eA[kin], rtol=1e-10, atol=1e-10), sig + ':kinematics',
            lambda: '%r\ngot %r\nexpected %r' % (dev, A[kin], eA[kin]))
    o.check(np.allclose(A[ROWS], eA[ROWS], rtol=0, atol=tol*sc + 1e-10), sig + ':dynamics',
            lambda: '%r\ngot %r\nexpected %r' % (dev, A[ROWS], eA[ROWS]))
    o.check(np.allclose(B, eB, rtol=0, atol=tol*np.max(np.abs(eB)) + 1e-12), sig + ':inputs',
            lambda: '%r\ngot %r\nexpected %r' % (dev, B, eB))
    # the laws, from the code's own matrices
    Mi = B[ROWS]
    o.check(np.allclose(Mi, Mi.T, rtol=0, atol=1e-9*np.max(np.abs(Mi))), 'symmetric', lambda: '%r %r' % (dev, Mi))
    o.check(np.min(np.linalg.eigvalsh(.5*(Mi + Mi.T))) > 0 or np.min(np.linalg.eigvalsh(M)) <= 0, 'positive', lambda: '%r %r' % (dev, Mi))
    Mm = np.linalg.inv(Mi)
    K = -Mm @ A[np.ix_(ROWS, ANG)]
    C = -Mm @ A[np.ix_(ROWS, ROWS)]
    # locked lean: rigid rider Whipple bicycle of the combined rear body
    bs, geo = refs.lean_bodies(p)
    m, r, I = refs.combine([bs['C'], bs['G']])
    w = {'mB': m, 'xB': r[0], 'zB': r[2], 'IBxx': I[0, 0], 'IBxz': I[0, 2], 'IByy': I[1, 1], 'IBzz': I[2, 2],
         'mH': bs['H'][0], 'xH': bs['H'][1][0], 'zH': bs['H'][1][2], 'IHxx': bs['H'][2][0, 0],
         'IHxz': bs['H'][2][0, 2], 'IHyy': bs['H'][2][1, 1], 'IHzz': bs['H'][2][2, 2],
         'mR': p['md'], 'IRxx': p['id11'], 'IRyy': p['id22'], 'rR': p['rr'], 'mF': p['mf'], 'IFxx': p['if11'],
         'IFyy': p['if22'], 'rF': p['rf'], 'w': geo['w'], 'c': geo['c'], 'lam': geo['lam']}
    M2, C1, K0, K2 = refs.whipple(w)
    Ke = p['g']*K0 + p['v']**2*K2
    ltol = max(1e-7, 1e-13*np.linalg.cond(M))
    ok = (close(Mm[:2, :2], M2, ltol) and np.allclose(C[:2, :2], p['v']*C1, rtol=0, atol=ltol*(1 + np.max(np.abs(C)))) and
          np.allclose(K[:2, :2], Ke, rtol=0, atol=ltol*(1 + np.max(np.abs(K)))))
    o.check(ok, 'locked', lambda: '%r\n%r %r\n%r %r\n%r %r' % (dev, Mm[:2, :2], M2, C[:2, :2], p['v']*C1, K[:2, :2], Ke))


def run_array(case):
    """a whole menu as one array, alone and with a second parameter"""
    o = Outcome()
    key, extra = case['key'], case['extra']
    vals = [refs.LEAN[key]] + MENU[key]
    vals = vals + vals[1:2] + [vals[1]*(1 + 1e-5) + 1e-6]
    n = len(vals)
    over = {key: np.array(vals)}
    const = dict(extra)
    if case['grid']:
        second = {k: [v*(1.0 + 0.02*(i % 2)) + 0.01*(i % 2) for i in range(n)] for k, v in extra.items()}
        over.update({k: np.array(v) for k, v in second.items()})
        if case['grid'] == 'rev':
            over = {k: over[k] for k in reversed(list(over))}
    else:
        over.update(extra)
    A, B = make('L').form_state_space_matrices(**over)
    if not o.check(np.shape(A) == (n, 12, 12) and np.shape(B) == (n, 12, 3), 'array:shape', lambda: repr((np.shape(A), np.shape(B)))):
        return o
    for i in range(n):
        p = dict(refs.LEAN, **const)
        if case['grid']:
            p.update({k: v[i] for k, v in second.items()})
        p[key] = vals[i]
        try:
            eA, eB = refs.lean_ss(p)
            M = refs.lean_matrices(p)[0]
        except ValueError:
            continue
        if np.linalg.cond(M) > 1e8:
            continue
        tol = 1e-9 + 1e-14*np.linalg.cond(M)
        o.check(np.allclose(A[i], eA, rtol=0, atol=tol*np.max(np.abs(eA)) + 1e-10) and
                np.allclose(B[i], eB, rtol=0, atol=tol*np.max(np.abs(eB)) + 1e-12), 'array',
                lambda: '%r index %d\ngot %r\nexpected %r' % (over, i, A[i][8:], eA[8:]))
        o.key(uniq(eA[8:]))
        o.states += 1
    return o


def run(case):
    if case.get('k') == 'live':
        return live.run(Outcome(), 'L', case['seqs'], live.matrices)
    if 'key' in case:
        return run_array(case)
    o = Outcome()
    for dev in case['pts']:
        point(o, dev, case['over'])
    return o


def cases(tier):
    for n in (2, 3) if tier == 'quick' else (2, 3, 4):
        for blk in chunks(live.sequences('L', n), 10):
            yield {'k': 'live', 'seqs': [list(x) for x in blk]}
    for over in (False, True):
        for blk in chunks(deviations(MENU, None, 1), 4):
            yield {'pts': blk, 'over': over}
    for key in MENU:
        for extra in ({}, {'v': 3.0}) if tier == 'quick' else ({}, {'v': 3.0}, {'g': 1.62}, {'l2': -0.2}, {'rr': 0.3}, {'d3': 0.05}, {'c9': 5.0}):
            if key in extra:
                continue
            for grid in (False, True, 'rev') if extra else (False,):
                yield {'key': key, 'extra': extra, 'grid': grid}
    for n in (2,) if tier == 'quick' else (2, 3):
        for i, blk in enumerate(chunks((d for d in deviations(MENU, None, n) if len(d) == n), 20)):
            yield {'pts': blk, 'over': bool(i % 2)}
