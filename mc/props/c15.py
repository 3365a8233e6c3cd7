"""C15: adding a rider is physically additive and queries never change a bicycle.

All sequences (up to a depth) of adding riders and asking questions are run on
real bicycles.  The reference model is the pair (bare bicycle, rider or none);
after every operation all of the bicycle's parameters and the files of the data
tree are compared with the model, and every answer with the answer of a fresh
bicycle in the same state.
"""
import copy
import itertools
import os

import numpy as np

from mc import refs
from mc.bikes import DATA, Tree, nom, sd, unc, write_par
from mc.engine import Outcome, chunks, deviations, raises

import bicycleparameters as bp
from bicycleparameters import tables

ID = 'C15'
LEVEL = 'model_checking'
TECHNIQUE = ('explicit-state exploration: every operation sequence up to a bound over {add rider A, add rider B, add unknown rider, queries} executed on real '
             'bicycles against a two-variable reference model, plus bounded-deviation enumeration of riders and bicycles against an independent combination')
LEVEL_NOTE = ('All sequences of length <= 3 (thorough 4) over 8 cheap operations from 5 kinds of bicycle; all pairs of 7 plotting/table queries on one (thorough '
              'all) bicycles and each followed by everything; all riders within 2 deviations on all number types; every shipped rider/bicycle combination.')
RULE = 'a state is (bicycle, rider on board); one transition is one operation; parameters, rider parameters, files and answers judged after each'
ASSUMPTIONS = ['the lateral position of the combined mass centre is taken as zero (symmetry) or as combined']

BIKES = ['float', 'mixed', 'unc', 'Browser', 'Rigid']
RIDERS = {'Ann': {'IBxx': 8.0, 'IByy': 8.1, 'IBzz': 2.4, 'IBxz': -1.9, 'mB': 72.0, 'xB': 0.29, 'yB': 0.0, 'zB': -1.1},
          'deBoer': {'IBxx': 5.5, 'IByy': 6.1, 'IBzz': 1.4, 'IBxz': 0.7, 'mB': 51.5, 'xB': 0.41, 'yB': 0.02, 'zB': -0.95}}


class World(object):
    """a data tree with the bicycle and the two riders"""

    def __init__(self, kind):
        self.kind = kind
        self.t = Tree()

    def __enter__(self):
        self.t.__enter__()
        if self.kind in ('float', 'mixed', 'unc'):
            self.name = 'Synth'
            par = {k: v for k, v in refs.BENCH.items() if k != 'v'}
            if self.kind == 'unc':
                par = unc(par)
            if self.kind == 'mixed':
                u = unc(par)
                par = {k: (u[k] if i % 2 else v) for i, (k, v) in enumerate(sorted(par.items()))}
            write_par(self.t.path('bicycles', 'Synth', 'Parameters', 'SynthBenchmark.txt'), par)
        else:
            self.name = self.kind
            self.t.copy_bike(self.name, par=self.kind != 'Rigidcl')
        for r, p in RIDERS.items():
            q = unc(p) if r == 'Ann' and self.kind in ('unc', 'Browser') else p
            write_par(self.t.path('riders', r, 'Parameters', r + self.name + 'Benchmark.txt'), q)
        if self.kind not in BASE:
            BASE[self.kind] = bp.Bicycle(self.name, pathToData=self.t.root, forceRawCalc=self.kind == 'Rigid')
        self.base = copied(BASE[self.kind])
        self.base.directory = self.t.path('bicycles', self.name)
        self.bare = own(self.base.parameters)
        self.extras = own(getattr(self.base, 'extras', None))
        self.answers = {}
        self.files = self.t.snapshot()
        return self

    def __exit__(self, *a):
        self.t.__exit__(*a)

    def fresh(self):
        return copied(self.base)


BASE = {}


def prepare():
    for kind in ('Rigid',):
        with World(kind) as w:
            q_steer(w.fresh())
            q_table(w.fresh())


def copied(b):
    b = copy.copy(b)
    b.parameters = own(b.parameters)
    b.riderPar = own(b.riderPar)
    if hasattr(b, 'extras'):
        b.extras = own(b.extras)
    return b


def own(x):
    """copy of all containers (the numbers in them are immutable and shared)"""
    if isinstance(x, dict):
        return {k: own(v) for k, v in x.items()}
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, (list, tuple)):
        return type(x)(own(v) for v in x)
    return x


def equal(a, b):
    """same structure with the same numbers"""
    if a is b:
        return True
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b) and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.shape(a) == np.shape(b) and all(equal(x, y) for x, y in zip(np.ravel(a).tolist(), np.ravel(b).tolist()))
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    return nom(a) == nom(b) and (LEAN[0] or abs(sd(a) - sd(b)) <= 1e-12*sd(b)) and hasattr(a, 'nominal_value') == hasattr(b, 'nominal_value')


# deviations of numbers derived from hundreds of measurements are costly: they are compared in C26
LEAN = [False]


def flat(x):
    """numbers and strings of a nested answer, in order"""
    out = []
    if isinstance(x, dict):
        for k in sorted(x, key=str):
            out.append(str(k))
            out += flat(x[k])
    elif isinstance(x, np.ndarray):
        out.append(str(x.shape))
        for v in x.ravel().tolist():
            out += flat(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            out += flat(v)
    elif hasattr(x, 'nominal_value'):
        out += [float(x.nominal_value)] + ([] if LEAN[0] else [float(x.std_dev)])
    elif isinstance(x, (int, float, complex, np.number)) and not isinstance(x, bool):
        out.append(complex(x))
    else:
        out.append(str(x))
    return out


def agree(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, str) or isinstance(y, str):
            if x != y:
                return False
        elif not (abs(x - y) <= 1e-10*abs(y) + 1e-13 or (x != x and y != y)):
            return False
    return True


def figdata(fig):
    import matplotlib.pyplot as plt
    out = []
    for ax in fig.axes:
        for l in ax.lines:
            out.append((np.asarray(l.get_xdata(), dtype=float), np.asarray(l.get_ydata(), dtype=float)))
        for p in ax.patches:
            out.append(np.asarray(p.get_path().vertices) if not hasattr(p, 'center') else np.asarray(p.center))
        out.append((ax.get_xlabel(), ax.get_ylabel(), ax.get_title()))
    plt.close(fig)
    return flat(out)


def plotlydata(fig):
    return flat([(t.name, np.asarray(t.x, dtype=float), np.asarray(t.y, dtype=float)) for t in fig.data if t.x is not None])


def taken(ms):
    """the answer; what was returned belongs to the caller, who may overwrite it"""
    out = own(list(ms))
    for m in ms:
        if isinstance(m, np.ndarray) and m.flags.writeable:
            m[...] = -77.0
    return out


def q_can(b):
    return [taken(b.canonical()), taken(b.canonical(nominal=True))]


def q_ss(b):
    return [taken(b.state_space(4.2)), taken(b.state_space(0.0, nominal=True))]


def q_eig(b):
    w, v = taken(b.eig([2.0, 4.5, 6.0]))
    return [w, np.abs(v)]


def q_steer(b):
    out = []
    for h, f, w, a, n in itertools.product((True, False), repeat=5):
        try:
            out += taken([b.steer_assembly_moment_of_inertia(handlebar=h, fork=f, wheel=w, aboutSteerAxis=a, nominal=n)])
        except ValueError as e:
            out.append('error')
    return out


def q_geom(b):
    return figdata(b.plot_bicycle_geometry(show=False))


def q_geom_o(b):
    return figdata(b.plot_bicycle_geometry(show=False, pendulum=False, centerOfMass=False, inertiaEllipse=False))


def q_geom_p(b):
    f = getattr(b, '_plot_bicycle_geometry_plotly', None)  # not a public name
    return f and plotlydata(f(show=False))


def q_eigp(b):
    return figdata(b.plot_eigenvalues_vs_speed(np.linspace(1, 8, 5), show=False)) + figdata(
        b.plot_eigenvalues_vs_speed(np.linspace(1, 8, 5), show=False, generic=True, largest=True))


def q_eigpp(b):
    f = getattr(b, '_plot_eigenvalues_vs_speed_plotly', None)  # not a public name
    return f and plotlydata(f(np.linspace(1, 8, 5), show=False))


def q_bode(b):
    r = b.plot_bode(5.0, 1, 0)
    import matplotlib.pyplot as plt
    f = plt.gcf()
    return figdata(f)


def q_bodes(b):
    b.compare_bode_speeds([3.0, 6.0], 1, 1)
    import matplotlib.pyplot as plt
    return figdata(plt.gcf())


def q_table(b):
    src = ['Benchmark'] + (['Measured'] if 'Measured' in b.parameters else [])
    out = []
    for s in src:
        for latex in (False, True):
            tab = tables.Table(s, latex, [b])
            out.append([str(v) for row in tab.tableData for v in row])
            if not latex:
                out.append(tab.create_rst_table())
    return out


CHEAP = {'can': q_can, 'ss': q_ss, 'eig': q_eig, 'steer': q_steer, 'str': str}
DEAR = {'geom': q_geom, 'geom-o': q_geom_o, 'geomplotly': q_geom_p, 'eigplot': q_eigp, 'eigplotly': q_eigpp, 'bode': q_bode, 'bodes': q_bodes, 'table': q_table}
QUERIES = dict(CHEAP, **DEAR)
RIDE = ['+Ann', '+deBoer', '+Nobody', '+deBoer!']
LIGHT = RIDE + sorted(CHEAP)


def combined(bare, rider):
    """independent combination of the rear frame and a rider (nominal values)"""
    b, r = nom(bare), nom(rider)
    m = b['mB'] + r['mB']
    pb, pr = np.array([b['xB'], 0.0, b['zB']]), np.array([r['xB'], r.get('yB', 0.0), r['zB']])
    c = (b['mB']*pb + r['mB']*pr)/m
    I = refs.tensor(b['IBxx'], b['IBxz'], b['IByy'], b['IBzz']) + refs.tensor(r['IBxx'], r['IBxz'], r['IByy'], r['IBzz'])
    for mm, p in ((b['mB'], pb), (r['mB'], pr)):
        d = p - c
        I = I + mm*(np.dot(d, d)*np.eye(3) - np.outer(d, d))
    return {'mB': m, 'xB': c[0], 'zB': c[2], 'IBxx': I[0, 0], 'IByy': I[1, 1], 'IBzz': I[2, 2], 'IBxz': I[0, 2]}, c[1]


def judge(o, b, bare, rider, rname, bname, sig, how):
    """the bicycle against the model state"""
    par = b.parameters
    msg = lambda: '%s: %r' % (how, {k: str(v) for k, v in par['Benchmark'].items()})
    o.check(set(par) == set(bare), sig + ':sets', msg)
    for s in bare:
        if s != 'Benchmark':
            o.check(equal(par[s], bare[s]), sig + ':other-set', lambda: how + ' ' + s)
    got, base = par['Benchmark'], bare['Benchmark']
    if rname is None:
        o.check(equal(got, base), sig + ':bare-changed', msg)
        o.check(b.hasRider is False and b.riderPar == {}, sig + ':rider-flag', msg)
        o.check(bname in str(b), sig + ':text', lambda: str(b))
        return
    want, y = combined(base, rider)
    o.check(set(got) - {'yB'} == set(base) - {'yB'}, sig + ':names', msg)
    for k, v in want.items():
        o.check(abs(nom(got[k]) - v) <= 1e-11*max(abs(v), 0.01*want['mB']), sig + ':' + k, lambda: '%s %s = %r want %r' % (how, k, got[k], v))
    if 'yB' in got:
        o.check(abs(nom(got['yB'])) <= 1e-12 or abs(nom(got['yB']) - y) <= 1e-12, sig + ':yB', msg)
    for k in base:
        if k not in want and k != 'yB':
            o.check(equal(got.get(k), base[k]), sig + ':other-changed', lambda: '%s %s' % (how, k))
    o.check(b.hasRider is True, sig + ':rider-flag', msg)
    rp = b.riderPar.get('Benchmark', {})
    o.check(equal(rp, rider), sig + ':rider-par', lambda: '%s %r' % (how, rp))
    o.check(rname in str(b) and bname in str(b), sig + ':text', lambda: str(b))


def step(o, w, b, rider, op, how):
    """executes one operation, returns the new rider on board"""
    o.transitions += 1
    if op[0] == '+':
        err = raises(lambda: b.add_rider(op[1:].strip('!'), reCalc=op.endswith('!')))
        if rider is None:
            # deBoer has no measurements to calculate from
            cannot = op in ('+Nobody', '+deBoer!')
            o.check((err is not None) == cannot, 'add-rider-error', lambda: '%s: %r' % (how, err))
            if not cannot:
                rider = op[1:]
    else:
        key = (rider, op)
        if key not in w.answers:
            f = w.fresh()
            if rider:
                f.add_rider(rider)
            w.answers[key] = (flat(QUERIES[op](f)))
        ans = (flat(QUERIES[op](b)))
        o.check(agree(ans, w.answers[key]), 'answer:' + op, lambda: '%s: answer differs from that of a fresh bicycle' % how)
    rp = bp.io.load_parameter_text_file(w.t.path('riders', rider, 'Parameters', rider + w.name + 'Benchmark.txt')) if rider else None
    judge(o, b, w.bare, rp, rider, w.name, 'state', how)
    o.check(equal(getattr(b, 'extras', None), w.extras), 'extras-changed', how)
    return rider


def run_seqs(case):
    o = Outcome()
    LEAN[0] = case['bike'] in ('Rigid', 'Rigidcl')
    with World(case['bike']) as w:
        for seq in case['seqs']:
            b = w.fresh()
            rider = None
            for i, op in enumerate(seq):
                rider = step(o, w, b, rider, op, '%s %r' % (case['bike'], seq[:i + 1]))
            o.validated += 1
            o.key((case['bike'], tuple(seq)))
        o.check(w.t.snapshot() == w.files, 'files-changed', lambda: str(case))
    o.states = len({(k[0]) for k in w.answers}) + 1
    return o


MENU = {'mB': [1.0, 0.0, 120.0], 'xB': [0.0, -0.2, 1.0], 'zB': [0.0, -2.0], 'yB': [0.05, -0.3], 'IBxx': [0.5, 20.0], 'IByy': [1.0, 20.0],
        'IBzz': [0.3, 9.0], 'IBxz': [0.0, 2.5]}
BMENU = {'mB': [1.0, 85.0], 'xB': [0.0, 0.7], 'zB': [-0.1, -1.2], 'IBxx': [0.5, 20.0], 'IByy': [1.0, 20.0], 'IBzz': [0.3, 9.0], 'IBxz': [0.0, -2.0]}


def run_add(case):
    o = Outcome()
    with Tree() as t:
        for bo, ro, kb, kr in case['items']:
            bpar = dict(refs.BENCH, **bo)
            rpar = dict(RIDERS['Ann'], **ro)
            B = {'f': bpar, 'u': unc(bpar), 'm': {k: (unc({k: v})[k] if k in ('mB', 'IBxz', 'xB', 'w') else v) for k, v in bpar.items()}}[kb]
            R = {'f': rpar, 'u': unc(rpar), 'm': {k: (unc({k: v})[k] if k in ('zB', 'IByy', 'mB') else v) for k, v in rpar.items()}}[kr]
            write_par(t.path('bicycles', 'Synth', 'Parameters', 'SynthBenchmark.txt'), B)
            write_par(t.path('riders', 'Ann', 'Parameters', 'AnnSynthBenchmark.txt'), R)
            b = bp.Bicycle('Synth', pathToData=t.root)
            bare = own(b.parameters)
            b.add_rider('Ann')
            how = '%r %r %s%s' % (bo, ro, kb, kr)
            rp = bp.io.load_parameter_text_file(t.path('riders', 'Ann', 'Parameters', 'AnnSynthBenchmark.txt'))
            judge(o, b, bare, rp, 'Ann', 'Synth', 'add', how)
            # the combined bicycle is uncertain only in what depends on uncertain numbers
            before = own([b.parameters, b.riderPar])
            b.add_rider('Ann')
            o.check(equal([b.parameters, b.riderPar], before), 'second-rider', how)
            o.key((str(bo), str(ro), kb, kr))
    return o


# (Charlie's mass 78.745 kg sits on yeadon's own rounding check of the scaled mass and fails there now and then)
SHIPPED = [('Jason', 'Browser'), ('Jason', 'Rigid'), ('Jason', 'Balanceassistv1'), ('Jason', 'Browserins'), ('Jason', 'Stratos'),
           ('Luke', 'Rigidcl'), ('Child', 'Gyro')]


def run_shipped(case):
    import shutil
    o = Outcome()
    rider, bike, recalc, raw = case['item']
    with Tree() as t:
        t.copy_bike(bike)
        shutil.copytree(os.path.join(DATA, 'riders', rider), t.path('riders', rider))
        b = bp.Bicycle(bike, pathToData=t.root, forceRawCalc=raw)
        if 'Benchmark' not in b.parameters or 'Measured' not in b.parameters:
            o.evals += 1
            return o
        bare = own(b.parameters)
        files = t.snapshot()
        err = raises(lambda: b.add_rider(rider, reCalc=recalc))
        how = '%s on %s recalc=%r raw=%r: %r' % (rider, bike, recalc, raw, err)
        has = 'riders/%s/Parameters/%s%sBenchmark.txt' % (rider, rider, bike) in files
        if err is not None:
            o.fail('shipped-error', how)
            return o
        rp = own(b.riderPar['Benchmark'])
        if has and not recalc:
            rp = bp.io.load_parameter_text_file(t.path('riders', rider, 'Parameters', rider + bike + 'Benchmark.txt'))
            o.check(b.human is None, 'shipped-human', how)
        else:
            o.check(b.human is not None, 'shipped-human', how)
            o.check(nom(rp['mB']) > 10.0, 'shipped-mass', how)
        judge(o, b, bare, rp, rider, bike, 'shipped', how)
        o.check(t.snapshot() == files, 'shipped-files', how)
        before = own([b.parameters, b.riderPar])
        for other, again in itertools.product((rider, 'Jason', 'Charlie', 'Nobody'), (False, True)):
            b.add_rider(other, reCalc=again)
            o.check(b.hasRider and b.riderName == rider and equal([b.parameters, b.riderPar], before), 'shipped-second-rider', lambda: '%s then %s %r' % (how, other, again))
        for q in sorted(CHEAP) + (['geom', 'table'] if recalc else []):
            before = own([b.parameters, b.riderPar])
            QUERIES[q](b)
            o.check(equal([b.parameters, b.riderPar], before), 'shipped-query:' + q, how)
        o.key(case['item'])
    return o


def run(case):
    return {'seqs': run_seqs, 'add': run_add, 'shipped': run_shipped}[case['kind']](case)


CHUNK = 1
CASE_TIMEOUT = 1500


def cases(tier):
    deep = tier != 'quick'
    bikes = BIKES
    for bike in bikes:
        seqs = [list(s) for n in (1, 2, 4 if deep else 3) for s in itertools.product(LIGHT, repeat=n)]
        if bike not in ('float', 'Browser') and not deep:
            seqs = [s for s in seqs if len(s) < 3 or sum(x[0] == '+' for x in s) >= 1]
        for block in chunks(seqs, 200):
            yield {'kind': 'seqs', 'bike': bike, 'seqs': block}
    for bike in bikes:
        for e in sorted(DEAR):
            rest = sorted(CHEAP)
            seqs = [[e] + rest + ['+Ann', e] + rest + ['+deBoer', e]]
            if deep:
                seqs += [[a, e, b] for a in LIGHT for b in LIGHT]
            for block in chunks(seqs, 16):
                yield {'kind': 'seqs', 'bike': bike, 'seqs': block}
        if deep or bike == 'Browser':
            for e in sorted(DEAR):
                for first in ([], ['+deBoer']):
                    yield {'kind': 'seqs', 'bike': bike, 'seqs': [first + [e, f] for f in sorted(DEAR)]}
    items = []
    for ro in deviations(MENU, None, 3 if deep else 2):
        items.append(({}, ro, 'f', 'f'))
    for bo in deviations(BMENU, None, 2):
        items.append((bo, {}, 'f', 'f'))
    for ro in deviations(MENU, None, 1):
        for bo in deviations(BMENU, None, 1):
            items.append((bo, ro, 'u' if deep else 'fum'[len(items) % 3], 'fum'[len(items)//3 % 3]))
    for kb, kr in itertools.product('fum', repeat=2):
        for ro in deviations(MENU, None, 1):
            items.append(({}, ro, kb, kr))
    for block in chunks(items, 60):
        yield {'kind': 'add', 'items': [list(x) for x in block]}
    for rider, bike in SHIPPED:
        for recalc, raw in itertools.product((False, True), repeat=2):
            yield {'kind': 'shipped', 'item': [rider, bike, recalc, raw]}
