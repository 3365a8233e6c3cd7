"""C07: simulations solve the linear model from the given start and inputs.

Enumerated: models x every basis and mixed initial state x input functions per
channel (constant, sinusoidal, state feedback, list/tuple valued) x time grids
(uniform, uneven, offset, two points, lists) x containers x overrides, and all
call histories up to a bound re-using one set of argument objects.
Oracle: exact solution by matrix exponential of the independently assembled
system augmented with the input's own dynamics.
"""
import copy
import itertools

import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import numpy as np
from scipy.linalg import expm

from mc import refs
from mc.engine import Outcome, chunks
from mc.models_common import BASES, make

ID = 'C07'
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of start states x inputs x time grids x containers x overrides and of call histories sharing argument objects, on '
             'the real models, oracle: matrix-exponential solution of the independently assembled system')
LEVEL_NOTE = ('All basis and mixed starts, every input channel, 6 grids, 5 containers, 5 overrides; histories up to length 3 (thorough 4). The integrator is run '
              'at its default tolerance, so trajectories are compared to 1e-2 of their own magnitude times the growth of errors.')
RULE = 'one evaluation = one trajectory judged (start, times, solution, inputs, arguments unchanged)'
ASSUMPTIONS = ['integration error stays below 1 per cent of the largest magnitude of the lateral states times the growth of the system (measured: below 0.25 per cent)']
TOL = 1e-2

N = {'W': 4, 'FB': 4, 'L': 12}
NU = {'W': 2, 'FB': 2, 'L': 3}


def ref_ss(kind, p):
    return {'W': refs.whipple_ss, 'FB': refs.feedback_ss, 'L': refs.lean_ss}[kind](p)


def inputs(kind):
    """name -> (function, augmented dynamics).  u = G x + H z, z' = S z"""
    n, nu = N[kind], NU[kind]
    S = np.array([[0., 2., 0.], [-2., 0., 0.], [0., 0., 0.]])   # sin 2t, cos 2t, 1

    def z(t):
        return np.array([np.sin(2*t), np.cos(2*t), 1.0])
    out = {'none': (None, np.zeros((nu, n)), np.zeros((nu, 3)))}
    for j in range(nu):
        H = np.zeros((nu, 3))
        H[j] = [0., 0., 1.5]
        out['const%d' % j] = (lambda t, x, H=H: H @ z(t), np.zeros((nu, n)), H)
        H2 = np.zeros((nu, 3))
        H2[j] = [2.0, 0.5, -0.3]
        out['sin%d' % j] = (lambda t, x, H=H2: list(H @ z(t)), np.zeros((nu, n)), H2)
    G = np.zeros((nu, n))
    lat = [0, 1, 2, 3] if n == 4 else [3, 5, 8, 10]
    G[0, lat[2]] = -20.0
    G[1, lat[0]] = 3.0
    G[1, lat[3]] = -2.0
    H = np.zeros((nu, 3))
    H[:, 0] = np.arange(1, nu + 1)
    out['feedback'] = (lambda t, x, G=G, H=H: tuple(G @ x + H @ z(t)), G, H)
    return out, S, z


def exact(A, B, G, H, S, z, times, x0):
    n = len(A)
    big = np.zeros((n + 3, n + 3))
    big[:n, :n] = A + B @ G
    big[:n, n:] = B @ H
    big[n:, n:] = S
    s = np.concatenate([x0, z(times[0])])
    out = [x0]
    for a, b in zip(times[:-1], times[1:]):
        s = expm(big*(b - a)) @ s
        out.append(s[:n])
    return np.array(out)


GAINS0 = {k: 0.0 for k in refs.GAINS}
GAINS0.update(kTphi_del=2.0, kTdel_phid=-4.0, kTdel_deld=1.0, kTphi_phi=-3.0)
STORED = {'W': {}, 'FB': GAINS0, 'L': {}}


def params(kind, over):
    return dict(BASES[kind], **dict(STORED[kind], **{k: float(v) for k, v in over.items()}))


def model(kind):
    return make(kind, STORED[kind])


def growth(A, times):
    """largest amplification of an error made anywhere on the way"""
    E = [expm(A*(b - a)) for a, b in zip(times[:-1], times[1:])]
    g, P = 1.0, np.eye(len(A))
    lat = [0, 1, 2, 3] if len(A) == 4 else [3, 5, 7, 8, 10, 11]
    for e in E:
        P = e @ P
        g = max(g, np.linalg.norm(P[np.ix_(lat, lat)], 2))
    return g


GRIDS = {'uniform': np.linspace(0.0, 1.0, 21), 'offset': np.linspace(3.0, 4.5, 7), 'negative': np.linspace(-1.0, 0.5, 4),
         'uneven': np.array([0.0, 0.01, 0.3, 0.31, 0.9, 1.4]), 'two': np.array([0.5, 1.1]), 'long': np.linspace(0.0, 2.0, 5)}
X0FORMS = {'array': np.array, 'list': list, 'tuple': tuple, 'readonly': lambda x: _ro(x), 'view': lambda x: np.repeat(np.array(x, dtype=float), 2)[::2]}


def _ro(x):
    a = np.array(x, dtype=float)
    a.setflags(write=False)
    return a


OVERS = {'W': [{}, {'v': 6.0}, {'v': 3}, {'g': 1.62, 'mB': 30.0}, {'v': 0.0}],
         'FB': [{}, {'v': 6.0}, {'kTphi_phid': -20, 'v': 4}, {'kTdel_deld': -2.0}, {'w': 1.3, 'v': 5.0}],
         'L': [{}, {'v': 6.0}, {'v': 3, 'k9': 200.0}, {'rr': 0.3, 'v': 4.0}, {'c9': 10.0, 'g': 1.62}]}


def starts(kind):
    n = N[kind]
    out = [np.zeros(n).tolist()]
    for j in range(n):
        e = np.zeros(n)
        e[j] = 0.2 if j % 2 else -0.1
        out.append(e.tolist())
    out.append([0.1*(-1)**j*(1 + j % 3) for j in range(n)])
    return out


def judge(o, kind, over, x0, times, states, ins, spec, sig, msg):
    p = params(kind, over)
    A, B = ref_ss(kind, p)
    func, G, H, S, z = spec
    n = N[kind]
    t = np.asarray(times, dtype=float)
    states, ins = np.asarray(states), np.asarray(ins)
    o.states += 1
    if not o.check(states.shape == (len(t), n) and ins.shape == (len(t), NU[kind]), sig + ':shape', lambda: '%s %r %r' % (msg(), states.shape, ins.shape)):
        return 0
    x = np.array(x0, dtype=float)
    if kind == 'L':
        x[9] = -p['v']/p['rr']
    o.check(np.allclose(states[0], x, rtol=1e-9, atol=1e-9), sig + ':start', lambda: '%s %r %r' % (msg(), states[0], x))
    e = exact(A, B, G, H, S, z, t, x)
    lat = range(4) if n == 4 else [3, 5, 7, 8, 10, 11]
    scale = np.max(np.abs(e[:, list(lat)]))
    amp = growth(A + B @ G, t)
    worst = 0.0
    for j in range(n):
        sc = scale if j in lat else max(np.max(np.abs(e[:, j])), scale)
        if sc > 0:
            worst = max(worst, float(np.max(np.abs(states[:, j] - e[:, j]))/(sc + 1e-4)))
        else:
            worst = max(worst, float(np.max(np.abs(states[:, j] - e[:, j]))/1e-4))
    worst /= amp
    o.check(worst < TOL, sig + ':solution', lambda: '%s worst relative error %g\n%r\n%r' % (msg(), worst, states, e))
    if func is None:
        o.check(np.all(ins == 0.0), sig + ':no-input', msg)
    else:
        ui = np.array([np.asarray(func(ti, xi), dtype=float) for ti, xi in zip(t, states)])
        o.check(np.allclose(ins, ui, rtol=1e-12, atol=1e-12), sig + ':inputs', lambda: '%s %r %r' % (msg(), ins, ui))
    o.key(np.round(e, 5).tobytes())
    return worst


def run_sim(case):
    o = Outcome()
    kind = case['m']
    fs, S, z = inputs(kind)
    f, G, H = fs[case['u']]
    for x0, grid, form, oi in case['pts']:
        over = OVERS[kind][oi]
        m = model(kind)
        xs = X0FORMS[form](x0)
        keep = copy.deepcopy(xs)
        ts = GRIDS[grid].copy()
        if form in ('list', 'tuple'):
            ts = ts.tolist()
        kt = copy.deepcopy(ts)
        before = dict(m.parameter_set.parameters)
        st, ins = m.simulate(ts, xs, input_func=f, **over)
        msg = lambda: '%s u=%s x0=%r grid=%s form=%s over=%r' % (kind, case['u'], x0, grid, form, over)
        judge(o, kind, over, x0, kt, st, ins, (f, G, H, S, z), 'simulate', msg)
        o.check(type(xs) is type(keep) and list(xs) == list(keep) and list(ts) == list(kt) and m.parameter_set.parameters == before,
                'arguments-changed', msg)
    return o


def run_modes(case):
    o = Outcome()
    kind = case['m']
    for oi, grid in case['pts']:
        over = OVERS[kind][oi]
        p = params(kind, over)
        A, B = ref_ss(kind, p)
        m = model(kind)
        ts = GRIDS[grid].copy()
        res = np.asarray(m.simulate_modes(ts, **over))
        ev, vec = model(kind).calc_eigen(**over)
        n = N[kind]
        if not o.check(res.shape == (n, len(ts), n), 'modes:shape', repr(res.shape)):
            continue
        for i in range(n):
            x0 = vec[:, i].real
            o.check(np.allclose(res[i, 0], x0, atol=1e-12), 'modes:start', lambda: '%s %r mode %d' % (kind, over, i))
            e = exact(A, B, np.zeros((NU[kind], n)), np.zeros((NU[kind], 3)), np.zeros((3, 3)), lambda t: np.zeros(3), ts, x0)
            err = np.max(np.abs(res[i] - e))/(np.max(np.abs(e)) + 1e-4)/growth(A, ts)
            o.check(err < TOL, 'modes:solution', lambda: '%s %r mode %d error %g' % (kind, over, i, err))
            o.states += 1
    return o


# -------------------------------------------------- histories, shared arguments
OPS = ['sim', 'sim_v', 'sim_u', 'modes', 'plot', 'plotmodes', 'refused', 'eig']


def run_hist(case):
    o = Outcome()
    kind = case['m']
    n = N[kind]
    fs, S, z = inputs(kind)
    x0 = starts(kind)[-1]
    xs = np.array(x0)
    ts = GRIDS['uneven'].copy()
    over = {'v': 5.0, 'g': 9.0}
    vs = np.array([4.0, 5.0])
    m = model(kind)
    stored = dict(m.parameter_set.parameters)
    for op in case['h']:
        o.transitions += 1
        name = OPS[op]
        if name == 'sim':
            st, ins = m.simulate(ts, xs)
            judge(o, kind, {}, x0, ts, st, ins, fs['none'] + (S, z), 'hist:sim', lambda: repr(case))
        elif name == 'sim_v':
            st, ins = m.simulate(ts, xs, **over)
            judge(o, kind, over, x0, ts, st, ins, fs['none'] + (S, z), 'hist:sim_v', lambda: repr(case))
        elif name == 'sim_u':
            st, ins = m.simulate(ts, xs, input_func=fs['feedback'][0], **over)
            judge(o, kind, over, x0, ts, st, ins, fs['feedback'] + (S, z), 'hist:sim_u', lambda: repr(case))
        elif name == 'modes':
            m.simulate_modes(ts, **over)
        elif name == 'plot':
            m.plot_simulation(ts, xs, input_func=fs['const0'][0], **over)
            plt.close('all')
        elif name == 'plotmodes':
            m.plot_mode_simulations(ts, **over)
            plt.close('all')
        elif name == 'refused':
            for call in (lambda: m.simulate(ts, xs, v=vs), lambda: m.simulate_modes(ts, v=[4.0, 5.0]),
                         lambda: m.plot_simulation(ts, xs, g=vs), lambda: m.simulate(ts, xs, v=[3.0])):
                try:
                    call()
                    o.check(False, 'array-accepted', repr(case))
                except Exception:
                    o.check(True, 'array-accepted')
            plt.close('all')
        elif name == 'eig':
            m.calc_eigen(**over)
        o.check(xs.tolist() == x0 and np.array_equal(ts, GRIDS['uneven']) and over == {'v': 5.0, 'g': 9.0}
                and vs.tolist() == [4.0, 5.0] and m.parameter_set.parameters == stored, 'hist:arguments-changed', '%r after %s' % (case, name))
    o.validated += 1
    return o


def run(case):
    return {'sim': run_sim, 'modes': run_modes, 'hist': run_hist}[case['k']](case)


def cases(tier):
    q = tier == 'quick'
    for kind in ('W', 'FB', 'L'):
        names = list(inputs(kind)[0])
        st = starts(kind)
        for u in names:
            if kind == 'L' and q:
                pts = [(x, g, f, oi) for i, x in enumerate(st) for j, (g, f) in enumerate(zip(GRIDS, itertools.cycle(X0FORMS)))
                       for oi in range(5) if (i + j + oi) % 5 == 0]
            elif q:
                pts = [(x, g, f, oi) for x in st for i, g in enumerate(GRIDS) for f in X0FORMS for j, oi in enumerate(range(5))
                       if (i + j + list(X0FORMS).index(f)) % 5 == 0]
            else:
                pts = list(itertools.product(st, GRIDS, X0FORMS, range(5)))
            for blk in chunks(pts, 6):
                yield {'k': 'sim', 'm': kind, 'u': u, 'pts': blk}
        for blk in chunks(itertools.product(range(5), GRIDS), 2):
            yield {'k': 'modes', 'm': kind, 'pts': blk}
    for kind in ('W', 'FB', 'L'):
        for d in (1, 2, 3) if q else (1, 2, 3, 4):
            if kind != 'W' and d > 3 - q:
                continue
            for h in itertools.product(range(len(OPS)), repeat=d):
                # plots are slow: at most one of each per history in quick runs
                if d > 2 and q and sum(x in (4, 5) for x in h) > 1:
                    continue
                yield {'k': 'hist', 'm': kind, 'h': list(h)}
