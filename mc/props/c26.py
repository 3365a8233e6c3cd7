"""C26: uncertainties ride along without changing results.

Every stage of the reduction (single formulas, raw measurements to parameters,
adding a rider, steer inertia, equations of motion, and the whole chain through
files) is run with every choice of uncertain inputs of a bounded set; the
reported standard deviations are compared with the first-order propagation
obtained by numerically differentiating the same calculation on plain numbers.
"""
import copy
import itertools
import math

import numpy as np
from uncertainties import ufloat

import bicycleparameters as bp
from bicycleparameters import bicycle, com, geometry, inertia, io
from bicycleparameters import main as bpmain
from mc import measure, refs
from mc.bikes import DATA, Tree, nom, sd, write_par
from mc.engine import Outcome, chunks, raises

ID = 'C26'
LEVEL = 'exploration'
TECHNIQUE = ('exhaustive enumeration of all sets of uncertain inputs within a bound (every one, every pair, all, none, all with zero uncertainty, all correlated) for every '
             'stage and for the whole chain, real code on uncertain numbers against numerical differentiation of the same real code on plain numbers')
LEVEL_NOTE = ('Every single uncertain input and all together for every stage and configuration; every pair for single formulas, rider, steer inertia and matrices '
              '(thorough: also raw reduction and more bicycles); shipped raw bicycles with their own uncertainties (quick 2, thorough all that can be calculated).')
RULE = 'one evaluation = nominal value or standard deviation of one output for one set of uncertain inputs'
ASSUMPTIONS = ['first order propagation as implemented by the uncertainties package', 'inputs are independent unless built from a common variable']
CHUNK = 1
CASE_TIMEOUT = 1500


def flat(x, pre=''):
    """{name: number} of nested results"""
    if isinstance(x, dict):
        out = {}
        for k, v in x.items():
            out.update(flat(v, '%s.%s' % (pre, k)))
        return out
    if isinstance(x, np.ndarray) or isinstance(x, (list, tuple)):
        if isinstance(x, np.ndarray) and x.ndim == 0:
            return {pre: x.item()}
        out = {}
        for i, v in enumerate(np.asarray(x) if isinstance(x, np.ndarray) else x):
            out.update(flat(v, '%s[%d]' % (pre, i)))
        return out
    return {pre: x}


def step(v):
    return 1e-4*max(abs(v), 0.05)


def derivatives(f, x, keys):
    """central differences (4th order) of every output in every input"""
    out = {}
    for k in keys:
        h = step(x[k])
        v = []
        for s in (-2, -1, 1, 2):
            y = dict(x)
            y[k] = x[k] + s*h
            v.append({n: float(nom(r)) for n, r in flat(f(y)).items()})
        out[k] = {n: (v[0][n] - 8*v[1][n] + 8*v[2][n] - v[3][n])/(12*h) for n in v[0]}
    return out


def sigma(k, v):
    return (1 + (sum(map(ord, k)) % 5))*1e-3*max(abs(v), 0.05)


class Stage(object):
    """f: {input: number} -> nested outputs, run on plain and uncertain numbers"""

    def __init__(self, o, f, x, name, keys=None, tol=2e-4):
        self.o, self.f, self.x, self.name, self.tol = o, f, dict(x), name, tol
        self.keys = list(keys or x)
        self.plain = {n: float(nom(v)) for n, v in flat(f(dict(x))).items()}
        self.D = derivatives(f, self.x, self.keys)
        self.scale = {n: max(abs(v), 1e-3) for n, v in self.plain.items()}

    def judge(self, res, want, tag, rel=None):
        """want: {output: sd}"""
        o = self.o
        got = flat(res)
        how = '%s %s' % (self.name, tag)
        o.check(set(got) == set(self.plain), 'outputs', lambda: '%s %r' % (how, sorted(set(got) ^ set(self.plain))[:8]))
        for n in self.plain:
            if n not in got:
                continue
            a, s = float(nom(got[n])), sd(got[n])
            o.check(abs(a - self.plain[n]) <= 1e-9*self.scale[n] + 1e-12, 'nominal', lambda: '%s %s %r != %r' % (how, n, a, self.plain[n]))
            w = want[n]
            ok = math.isfinite(s) and abs(s - w) <= (rel or self.tol)*max(w, self.noise(n)) + 1e-10*self.scale[n]
            o.check(ok, 'sd', lambda: '%s %s: sd %r, propagated %r' % (how, n, s, w))

    def noise(self, n):
        return 1e-5*max([abs(self.D[k][n])*sigma(k, self.x[k]) for k in self.keys] + [0.0])

    def run_set(self, ks, tag=None):
        u = {k: (ufloat(v, sigma(k, v)) if k in ks else v) for k, v in self.x.items()}
        want = {n: math.sqrt(sum((self.D[k][n]*sigma(k, self.x[k]))**2 for k in ks)) for n in self.plain}
        self.o.transitions += 1
        res = self.f(u)
        self.judge(res, want, tag or 'uncertain %s' % '+'.join(ks))
        self.o.key((self.name, tuple(ks)))
        return res, u

    def zero(self):
        res = self.f({k: ufloat(v, 0) for k, v in self.x.items()})
        self.judge(res, dict.fromkeys(self.plain, 0.0), 'zero uncertainty')
        for n, v in flat(res).items():
            self.o.check(sd(v) == 0.0, 'zero', lambda: '%s %s %r' % (self.name, n, v))

    def common(self):
        """all inputs scaled by one uncertain factor"""
        q = ufloat(0.0, 1e-3)
        a = {k: (((sum(map(ord, k)) % 7) - 3) or 1)/3.0 for k in self.keys}
        res = self.f({k: (v + a[k]*step(v)*1e3*q if k in a else v) for k, v in self.x.items()})
        want = {n: abs(sum(self.D[k][n]*a[k]*step(self.x[k])*1e3 for k in self.keys))*1e-3 for n in self.plain}
        mag = {n: math.sqrt(sum((self.D[k][n]*a[k]*step(self.x[k]))**2 for k in self.keys)) for n in self.plain}
        how = self.name + ' common factor'
        for n, v in flat(res).items():
            self.o.check(abs(sd(v) - want[n]) <= 5e-4*max(want[n], mag[n]) + 1e-10*self.scale[n], 'common', lambda: '%s %s: sd %r, propagated %r' % (how, n, sd(v), want[n]))

    def everything(self):
        res, u = self.run_set(self.keys, 'all uncertain')
        # each output knows the contribution of every input
        for n, v in flat(res).items():
            der = v.derivatives if hasattr(v, 'derivatives') else {}
            for k in self.keys:
                d = der.get(u[k], 0.0)
                w = self.D[k][n]
                s = sigma(k, self.x[k])
                top = max(abs(self.D[q][n])*sigma(q, self.x[q]) for q in self.keys)
                self.o.check(abs(d - w)*s <= self.tol*max(abs(w)*s, 1e-3*top) + 1e-10*self.scale[n], 'contribution',
                             lambda: '%s: d %s/d %s = %r, difference quotient %r' % (self.name, n, k, d, w))

    def near(self):
        """numbers which look the same when printed are not the same"""
        for sign in (1.0, -1.0):
            x = {k: v + sign*1e-4*sigma(k, v) for k, v in self.x.items()}
            plain = {n: float(nom(v)) for n, v in flat(self.f(dict(x))).items()}
            got = flat(self.f({k: ufloat(v, sigma(k, self.x[k])) for k, v in x.items()}))
            for n, v in got.items():
                self.o.check(abs(float(nom(v)) - plain[n]) <= 1e-9*self.scale[n] + 1e-12, 'nominal-near', lambda: '%s %s %r != %r' % (self.name, n, nom(v), plain[n]))

    def full(self, depth):
        for k in range(1, depth + 1):
            for ks in itertools.combinations(self.keys, k):
                self.run_set(list(ks))
        self.everything()
        self.near()
        self.zero()
        self.common()


# ---------------------------------------------------------------- formulas
def arr(u, pre, n):
    return np.array([u['%s%d' % (pre, i)] for i in range(n)])


def tens(u, p='I'):
    return np.array([[u[p + 'xx'], 0.0, u[p + 'xz']], [0.0, u[p + 'yy'], 0.0], [u[p + 'xz'], 0.0, u[p + 'zz']]])


LINES = {'s0': 0.4, 's1': -1.3, 's2': 2.1, 's3': -0.2, 'i0': 0.1, 'i1': 0.75, 'i2': -0.71, 'i3': 0.33}
CL = {'alpha': 75.0, 'a': 0.11, 'lam': 0.4, 'rR': 0.34, 'rF': 0.35, 'w': 1.1, 'l1': 0.03, 'l2': 0.9}
INB = {'Ixx': 0.5, 'Ixz': -0.1, 'Iyy': 1.3, 'Izz': 0.8}


def fork(u):
    return {'w': u['w'], 'rF': u['rF'], 'rR': u['rR'], 'lam': u['lam']}


FORMULAS = {
    'abc': (lambda u: geometry.calculate_abc_geometry((u['h1'], u['h2'], u['h3'], u['h4'], u['h5']), (u['d1'], u['d2'], u['d3'], u['d4'], u['d'])),
            {'h1': 0.55, 'h2': 0.1, 'h3': 0.07, 'h4': 0.14, 'h5': 0.08, 'd1': 0.037, 'd2': 0.01, 'd3': 0.011, 'd4': 0.028, 'd': 0.7}),
    'l1l2': (lambda u: geometry.calculate_l1_l2(u['h6'], u['h7'], u['d5'], u['d6'], u['l']), {'h6': 0.15, 'h7': 0.12, 'd5': 0.01, 'd6': 0.022, 'l': 0.93}),
    'handlebar': (lambda u: geometry.fwheel_to_handlebar_ref(u['lam'], u['l1'], u['l2']), {'lam': 0.4, 'l1': -0.02, 'l2': 0.93}),
    'lam': (lambda u: bicycle.lambda_from_abc(u['rF'], u['rR'], u['a'], u['b'], u['c']), {'rF': 0.33, 'rR': 0.36, 'a': 0.9, 'b': 0.07, 'c': 0.4}),
    'trail': (lambda u: bicycle.trail(u['rF'], u['lam'], u['fo']), {'rF': 0.33, 'lam': 0.35, 'fo': 0.05}),
    'steer-distance': (lambda u: geometry.distance_to_steer_axis(u['w'], u['c'], u['lam'], np.array([u['x'], 0.0, u['z']])),
                       {'w': 1.1, 'c': 0.07, 'lam': 0.35, 'x': 0.8, 'z': -0.7}),
    'com': (lambda u: com.center_of_mass(arr(u, 's', 4), arr(u, 'i', 4)), LINES),
    'com3': (lambda u: com.center_of_mass(arr(u, 's', 3), arr(u, 'i', 3)), {k: v for k, v in LINES.items() if k[1] != '3'}),
    'total-com': (lambda u: com.total_com(np.array([[u['x%d' % i] for i in range(3)], [0.1, -0.2, 0.3], [u['z%d' % i] for i in range(3)]]), [u['m%d' % i] for i in range(3)]),
                  {'x0': 0.1, 'x1': 0.9, 'x2': -0.4, 'z0': -1.0, 'z1': -0.3, 'z2': 0.4, 'm0': 2.0, 'm1': 5.5, 'm2': 0.4}),
    'line-B': (lambda u: com.com_line(u['alpha'], u['a'], fork(u), 'B', u['l1'], u['l2']), CL),
    'line-H': (lambda u: com.com_line(u['alpha'], u['a'], fork(u), 'H', u['l1'], u['l2']), CL),
    'line-S': (lambda u: com.com_line(u['alpha'], u['a'], fork(u), 'S', u['l1'], u['l2']), CL),
    'line-G': (lambda u: com.com_line(u['alpha'], u['a'], fork(u), 'G', u['l1'], u['l2']), CL),
    'compound': (lambda u: inertia.compound_pendulum_inertia(u['m'], u['g'], u['l'], u['T']), {'m': 3.1, 'g': 9.81, 'l': 0.3, 'T': 1.4}),
    'torsion': (lambda u: inertia.tor_inertia(u['k'], u['T']), {'k': 4.9, 'T': 1.3}),
    'stiffness': (lambda u: inertia.torsional_pendulum_stiffness(u['I'], u['T']), {'I': 0.3, 'T': 0.95}),
    'tube': (lambda u: inertia.tube_inertia(u['l'], u['m'], u['ro'], u['ri']), {'l': 0.84, 'm': 4.6, 'ro': 0.015, 'ri': 0.004}),
    'components': (lambda u: inertia.inertia_components(arr(u, 'j', 4), arr(u, 'b', 4)),
                   {'j0': 0.5, 'j1': 0.8, 'j2': 0.61, 'j3': 0.7, 'b0': 0.2, 'b1': 1.1, 'b2': -0.7, 'b3': 2.2}),
    'components3': (lambda u: inertia.inertia_components(arr(u, 'j', 3), arr(u, 'b', 3)), {'j0': 0.5, 'j1': 0.8, 'j2': 0.61, 'b0': 0.2, 'b1': 1.1, 'b2': -0.7}),
    'parallel': (lambda u: inertia.parallel_axis(tens(u), u['m'], np.array([u['x'], u['y'], u['z']])), dict(INB, m=3.2, x=0.3, y=-0.2, z=0.9)),
    'rotate': (lambda u: inertia.rotate_inertia_tensor(tens(u), u['angle']), dict(INB, angle=0.7)),
}


def run_formula(case):
    o = Outcome()
    f, x = FORMULAS[case['name']]
    Stage(o, f, x, case['name']).full(3 if case['deep'] else 2)
    return o


# ---------------------------------------------------------------- matrices
def bench(over):
    p = {k: v for k, v in refs.BENCH.items() if k != 'v'}
    p.update(over)
    return p


def mats(u):
    M, C1, K0, K2 = bicycle.benchmark_par_to_canonical(u)
    A, B = bicycle.ab_matrix(M, C1, K0, K2, 4.5, u['g'])
    return {'M': M, 'C1': C1, 'K0': K0, 'K2': K2, 'A': A, 'B': B}


def run_mats(case):
    o = Outcome()
    x = bench(case['over'])
    s = Stage(o, mats, x, 'matrices %r' % case['over'])
    s.full(case['depth'])
    return o


SPEEDS = (0.0, 4.5)


def through_file(u, steer, rider=None, speeds=SPEEDS, strip=None, o=None):
    """the public path: parameter files on disk, Bicycle, (rider,) matrices, steer inertia"""
    with Tree() as t:
        write_par(t.path('bicycles', 'Synth', 'Parameters', 'SynthBenchmark.txt'), {k: v for k, v in u.items() if not k.startswith('r:')})
        if rider:
            write_par(t.path('riders', 'Ann', 'Parameters', 'AnnSynthBenchmark.txt'), {k[2:]: v for k, v in u.items() if k.startswith('r:')})
        b = bp.Bicycle('Synth', pathToData=t.root)
        if rider:
            b.add_rider('Ann')
    return answers(b, steer, speeds, o)


def answers(b, steer, speeds=SPEEDS, o=None):
    out = {'par': dict(b.parameters['Benchmark'])}
    out['par'].pop('yB', None)
    out['can'] = b.canonical()
    for v in speeds:
        out['ss%g' % v] = b.state_space(v)
    for opt in steer:
        h, f, w, a = opt
        out['steer' + ''.join('ft'[x] for x in opt)] = b.steer_assembly_moment_of_inertia(handlebar=h, fork=f, wheel=w, aboutSteerAxis=a)
    if o is not None:  # asking for nominal results only strips the uncertainties
        def strip(u, n, what):
            u, n = flat(u), flat(n)
            o.check(set(u) == set(n) and all(not hasattr(n[k], 'std_dev') and abs(float(n[k]) - float(nom(u[k]))) <= 1e-12*(1 + abs(float(n[k]))) for k in n), 'nominal-option', what)
        strip(out['can'], b.canonical(nominal=True), 'canonical')
        for bad in (None, 'yes', 2):  # neither kind of result
            for fn in (lambda: b.canonical(nominal=bad), lambda: b.state_space(1.0, nominal=bad)):
                o.check(raises(fn, ValueError) is not None, 'nominal-invalid', repr(bad))
        for v in speeds:
            strip(out['ss%g' % v], b.state_space(v, nominal=True), 'state_space')
            ev = np.sort_complex(b.eig(v)[0][0])
            want = np.sort_complex(np.linalg.eigvals(b.state_space(v, nominal=True)[0].astype(float)))
            o.check(ev.dtype.kind == 'c' and np.allclose(ev, want, rtol=1e-6, atol=1e-6), 'eig-nominal', lambda: '%r %r' % (ev, want))
        for opt in steer:
            h, f, w, a = opt
            strip(out['steer' + ''.join('ft'[x] for x in opt)], b.steer_assembly_moment_of_inertia(handlebar=h, fork=f, wheel=w, aboutSteerAxis=a, nominal=True), 'steer %r' % (opt,))
        plain = io.remove_uncertainties(b.parameters['Benchmark'])
        o.check(set(plain) == set(b.parameters['Benchmark']) and all(type(v) is float or not hasattr(v, 'std_dev') for v in plain.values())
                and all(float(plain[k]) == float(nom(v)) for k, v in b.parameters['Benchmark'].items()), 'remove-uncertainties', repr(plain))
    return out


STEER = list(itertools.product((True, False), repeat=4))
RIDER = {'r:IBxx': 8.0, 'r:IByy': 8.1, 'r:IBzz': 2.4, 'r:IBxz': -1.9, 'r:mB': 72.0, 'r:xB': 0.29, 'r:yB': 0.0, 'r:zB': -1.1}
SPLIT = {'mS': 2.4, 'xS': 0.95, 'zS': -0.55, 'ISxx': 0.05, 'ISyy': 0.06, 'ISzz': 0.02, 'ISxz': -0.006,
         'mG': 1.7, 'xG': 0.82, 'zG': -0.98, 'IGxx': 0.07, 'IGyy': 0.03, 'IGzz': 0.05, 'IGxz': 0.012}


def config(kind, over):
    x = bench(over)
    steer = [s for s in STEER if s[0] == s[1]]
    if 'S' in kind:
        x.update(SPLIT)
        steer = STEER
    if 'R' in kind:
        x.update(RIDER)
    return x, [s for s in steer if any(s[:3])]


def run_public(case):
    o = Outcome()
    x, steer = config(case['cfg'], case['over'])
    rider = 'R' in case['cfg']
    # the lateral position of the rider only enters quadratically
    keys = case['keys']
    st = Stage(o, lambda u: through_file(u, steer, rider), x, 'public %s %r' % (case['cfg'], case['over']), keys=keys or [k for k in x if k != 'r:yB'])
    if keys:
        for k in keys:
            st.run_set([k])
        for a, b in zip(keys, keys[1:]):
            st.run_set([a, b])
    else:
        st.run_set(st.keys, 'all uncertain')
        u = {k: (ufloat(v, sigma(k, v)) if k != 'r:yB' else v) for k, v in x.items()}
        through_file(u, steer, rider, o=o)
        through_file({k: v for k, v in u.items()}, steer, rider, o=o)
        half = {k: (ufloat(v, sigma(k, v)) if sum(map(ord, k)) % 2 and k != 'r:yB' else v) for k, v in x.items()}
        through_file(half, steer, rider, o=o)
        z = through_file({k: ufloat(v, 0) for k, v in x.items()}, steer, rider, o=o)
        st.judge(z, dict.fromkeys(st.plain, 0.0), 'zero uncertainty')
        through_file(x, steer, rider, o=o)
    return o


def run_rider(case):
    o = Outcome()
    x, _ = config('R', case['over'])
    x = {k: v for k, v in x.items() if k in ('mB', 'xB', 'zB', 'IBxx', 'IByy', 'IBzz', 'IBxz', 'w', 'lam') or k.startswith('r:')}

    def f(u):
        out = inertia.combine_bike_rider({k: v for k, v in u.items() if not k.startswith('r:')}, {k[2:]: v for k, v in u.items() if k.startswith('r:')})
        out = dict(out)
        out.pop('yB', None)
        return out
    st = Stage(o, f, x, 'rider %r' % case['over'], keys=[k for k in x if k != 'r:yB'])
    for k in range(1, case['depth'] + 1):
        for ks in itertools.combinations(st.keys, k):
            st.run_set(list(ks))
    st.everything()
    st.common()
    return o


# ---------------------------------------------------------------- raw measurements
def raw(conf, over):
    split, geo, fly = conf
    p = dict(measure.BASE)
    p.update(measure.FLY)
    p.update(over)
    mp = measure.measure(p, split, geo, None, fly)
    # not quite consistent, as real measurements
    for i, k in enumerate(sorted(mp)):
        if k[0] == 'a' and k[1] in 'BHSG' or k[:2] == 'Tt' and k[2] in 'BHSG':
            mp[k] *= 1 + 0.004*math.sin(3.7*i)
    return mp


def reduce_(u):
    return bpmain.calculate_benchmark_from_measured(dict(u))[0]


def run_raw(case):
    o = Outcome()
    x = raw(case['conf'], case['over'])
    name = 'raw %r %r' % (case['conf'], case['over'])
    if case['keys'] is None:
        st = Stage(o, reduce_, x, name)
        st.everything()
        st.zero()
        st.common()
    else:
        st = Stage(o, reduce_, x, name, keys=sorted(x)[case['keys'][0]:case['keys'][1]])
        for k in st.keys:
            st.run_set([k])
        for ks in itertools.combinations(st.keys, 2) if case['pairs'] else zip(st.keys, st.keys[1:]):
            st.run_set(list(ks))
    return o


def run_chain(case):
    """raw measurement file to equations of motion, through the files and the public methods"""
    o = Outcome()
    conf = case['conf']
    x = raw(conf, {})
    x.update(RIDER)
    steer = [s for s in STEER if (conf[0] or s[0] == s[1]) and any(s[:3])][::3]

    def f(u):
        with Tree() as t:
            write_par(t.path('bicycles', 'Synth', 'RawData', 'SynthMeasured.txt'), {k: v for k, v in u.items() if not k.startswith('r:')})
            write_par(t.path('riders', 'Ann', 'Parameters', 'AnnSynthBenchmark.txt'), {k[2:]: v for k, v in u.items() if k.startswith('r:')})
            b = bp.Bicycle('Synth', pathToData=t.root)
            b.add_rider('Ann')
        return answers(b, steer, (4.5,))
    keys = [k for k in sorted(x) if k != 'r:yB'][case['keys'][0]:case['keys'][1]]
    st = Stage(o, f, x, 'chain %r' % (conf,), keys=keys, tol=5e-4)
    for k in keys:
        st.run_set([k])
    st.run_set(keys)
    return o


def run_shipped(case):
    o = Outcome()
    name = case['name']
    b = bp.Bicycle(name, pathToData=DATA, forceRawCalc=True)
    mp = b.parameters['Measured']
    x = {k: float(nom(v)) for k, v in mp.items()}
    sg = {k: sd(v) for k, v in mp.items()}
    keys = [k for k in x if sg[k] > 0]
    D = derivatives(reduce_, x, keys)
    plain = {n: float(nom(v)) for n, v in flat(reduce_(x)).items()}
    got = flat(b.parameters['Benchmark'])
    o.check(set(got) == set(plain), 'outputs', lambda: '%s %r' % (name, set(got) ^ set(plain)))
    for n in plain:
        w = math.sqrt(sum((D[k][n]*sg[k])**2 for k in keys))
        a, s = float(nom(got[n])), sd(got[n])
        o.check(abs(a - plain[n]) <= 1e-9*max(abs(plain[n]), 1e-3), 'nominal', lambda: '%s %s %r %r' % (name, n, a, plain[n]))
        o.check(abs(s - w) <= 5e-4*w + 1e-10*max(abs(plain[n]), 1e-3), 'sd', lambda: '%s %s sd %r, propagated %r' % (name, n, s, w))
        o.key((name, n))
    par = io.remove_uncertainties(b.parameters['Benchmark'])
    o.check(all(float(par[k]) == float(nom(v)) for k, v in b.parameters['Benchmark'].items()), 'remove-uncertainties', name)
    return o


def run(case):
    return {'formula': run_formula, 'mats': run_mats, 'public': run_public, 'rider': run_rider, 'raw': run_raw, 'chain': run_chain, 'shipped': run_shipped}[case['kind']](case)


def cases(tier):
    deep = tier != 'quick'
    for name in ['Browser', 'Stratos'] if not deep else ['Browser', 'Stratos', 'Rigid', 'Rigidcl', 'Gyro', 'Crescendo', 'Yellow', 'Yellowrev', 'Browserins', 'Balanceassistv1', 'Pista', 'Fisher']:
        yield {'kind': 'shipped', 'name': name}
    for name in sorted(FORMULAS):
        yield {'kind': 'formula', 'name': name, 'deep': deep}
    devs = [{}, {'lam': -0.2, 'c': -0.03}, {'mH': 9.0, 'IHxz': 0.05, 'rF': 0.5}]
    for over in devs:
        yield {'kind': 'mats', 'over': over, 'depth': 2}
        yield {'kind': 'rider', 'over': over if over == {} else {'mB': 3.0, 'xB': 0.9, 'IBxz': -0.3} if 'lam' in over else {'zB': -0.1, 'IBzz': 3.0}, 'depth': 3 if deep else 2}
    for kind in ('', 'R', 'S', 'SR'):
        for over in devs if deep or kind == 'SR' else devs[:1]:
            x, _ = config(kind, over)
            yield {'kind': 'public', 'cfg': kind, 'over': over, 'keys': None}
            ks = [k for k in sorted(x) if k != 'r:yB']
            for block in chunks(ks, 6):
                yield {'kind': 'public', 'cfg': kind, 'over': over, 'keys': block}
    for conf in itertools.product((False, True), ('abc', 'w'), (False, True)):
        for over in ([{}, {'lam': 0.15, 'rF': 0.3}, {'xB': 0.5, 'mB': 4.0}] if deep else [{}]):
            n = len(raw(conf, over))
            yield {'kind': 'raw', 'conf': list(conf), 'over': over, 'keys': None, 'pairs': False}
            if not deep and conf[2] and conf[1] == 'w':
                continue
            for i in range(0, n, 10):
                yield {'kind': 'raw', 'conf': list(conf), 'over': over, 'keys': [i, i + (20 if deep else 10)], 'pairs': deep}
    for conf in ([(False, 'abc', False), (True, 'abc', False), (True, 'w', True)] if deep else [(True, 'abc', True)]):
        n = len(raw(conf, {})) + 7
        for i in range(0, n, 8):
            yield {'kind': 'chain', 'conf': list(conf), 'keys': [i, i + 8]}
