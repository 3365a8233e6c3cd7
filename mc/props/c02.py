"""C02: Whipple matrices equal the published equations.

Enumerated: every assignment differing from a base bicycle in at most k
parameters, each over its whole menu (zeros, sign changes, extremes), three
base bicycles, through every public entry point.
Oracle: independent tensor-form implementation of Meijaard et al. (2007),
itself checked against the printed benchmark matrices.
"""
import copy
import itertools

import numpy as np
from uncertainties import ufloat

from mc import live, refs
from mc.bikes import load_params, nom, unc
from mc.engine import Outcome, chunks, close, deviations, snap, uniq

from bicycleparameters import bicycle, models, parameter_sets

ID = 'C02'
LEVEL = 'exploration'
TECHNIQUE = ('bounded explicit-state enumeration of the parameter space (all deviations up to a bound from base bicycles) executed on the real '
             'code, oracle: independent tensor-form reference validated against the published matrices')
LEVEL_NOTE = ('All assignments with at most 3 (thorough 4) of the 25 parameters, speed and gravity away from 3 base bicycles, menu values include zeros '
              'and sign changes, 2-deviation points through all 6 entry points. A term wrong only under 4+ simultaneous deviations is out of the quick bound.')
RULE = 'all <=k-deviations over the parameter menus x 3 bases x entry points; an evaluation compares one set of matrices'
ASSUMPTIONS = ['the reference implements Meijaard et al. (2007) (checked against its printed benchmark to 1e-13)',
               'at least one of handlebar and front wheel has mass; the mass matrix is not singular']

BASES = {'meij': refs.MEIJ, 'bench': refs.BENCH, 'legs': refs.LEGS}
_BIKE = []


def bike():
    if not _BIKE:
        _BIKE.append(load_params({k: v for k, v in refs.MEIJ.items() if k != 'v'}))
    return _BIKE[0]


def mats(o, got, exp, sig, p, tol=1e-10):
    ok = len(got) == len(exp) and all(close(a, b, tol, 1e-12) for a, b in zip(got, exp))
    o.check(ok, sig, lambda: 'parameters %r\ngot %r\nexpected %r' % (p, got, exp))
    o.states += 1


def point(o, p, full):
    exp = refs.whipple(p)
    cond = np.linalg.cond(exp[0])
    ss = None
    if np.isfinite(cond) and cond < 1e7:
        ss = refs.state_space(*exp, p['v'], p['g'])
    else:
        o.trivial += 1
    tol = 1e-10 + 1e-14*(cond if ss else 0)
    o.key(uniq(np.concatenate([x.ravel() for x in exp])))
    # 1. model object
    pf = {k: float(v) for k, v in p.items()}
    s = parameter_sets.Meijaard2007ParameterSet(dict(pf), False)
    m = models.Meijaard2007Model(s)
    mats(o, m.form_reduced_canonical_matrices(), exp, 'model:can', p)
    if ss:
        mats(o, m.form_state_space_matrices(), ss, 'model:ss', p, tol)
    o.check(s.parameters == pf, 'mutated:model', 'set changed')
    # 2. plain functions
    d = dict(pf)
    mats(o, bicycle.benchmark_par_to_canonical(d), exp, 'function:can', p)
    o.check(d == pf, 'mutated:function', lambda: 'dictionary changed from %r to %r' % (pf, d))
    if ss:
        can = [np.array(x) for x in exp]
        mats(o, bicycle.ab_matrix(*can, pf['v'], pf['g']), ss, 'function:ab', p, tol)
        o.check(all(np.array_equal(a, b) for a, b in zip(can, exp)), 'mutated:ab', '')
    if not full:
        return
    # 3. overrides on a model holding another bicycle
    m2 = models.Meijaard2007Model(parameter_sets.Meijaard2007ParameterSet(dict(refs.LEGS, v=2.5), True))
    mats(o, m2.form_reduced_canonical_matrices(**pf), exp, 'override:can', p)
    if ss:
        mats(o, m2.form_state_space_matrices(**pf), ss, 'override:ss', p, tol)
    # 4. a loaded bicycle, with plain and with uncertain numbers, and with
    # wheel zz entries that do not match the xx ones
    b = bike()
    par = {k: v for k, v in pf.items() if k != 'v'}
    for vers in ('plain', 'unc', 'zz'):
        q = dict(par)
        if vers == 'unc':
            q = unc(par)
        elif vers == 'zz':
            q['IFzz'] = par['IFxx'] + 0.3
            q['IRzz'] = par['IRxx'] + 0.7
            # entries that are no parameters of this model
            q.update(yB=0.2, yH=-0.1, yF=0.3, xF=0.9, xR=0.2, zF=-0.5, zR=-0.2, IFxz=0.1, IRxz=0.2, IBxy=0.3, mS=1.5, mG=2.5, mD=1.2, IDyy=0.2, xcl=0.3, kTdel_phi=4.0)
        b.parameters['Benchmark'] = q
        before = snap(q)
        mats(o, nom2(b.canonical()), exp, 'bicycle-%s:can' % vers, p)
        mats(o, b.canonical(nominal=True), exp, 'bicycle-%s:nominal' % vers, p)
        o.check(all(x.dtype != object for x in b.canonical(nominal=True)), 'nominal-type', '')
        if ss:
            mats(o, nom2(b.state_space(pf['v'])), ss, 'bicycle-%s:ss' % vers, p, tol)
            mats(o, b.state_space(pf['v'], nominal=True), ss, 'bicycle-%s:ss-nominal' % vers, p, tol)
        o.check(b.parameters['Benchmark'] is q and snap(q) == before, 'mutated:bicycle', 'parameters changed (%s)' % vers)
        q2 = copy.copy(q)
        mats(o, nom2(bicycle.benchmark_par_to_canonical(q2)), exp, 'function-%s:can' % vers, p)
        o.check(snap(q2) == before, 'mutated:function', 'dictionary changed (%s)' % vers)


def nom2(ms):
    return [nom(np.asarray(x)) for x in ms]


def valid(p):
    return p['mH'] + p['mF'] > 0


def run(case):
    if case.get('k') == 'live':
        return live.run(Outcome(), 'W', case['seqs'], live.matrices)
    if case.get('k') == 'edit':
        from mc.props import c05
        return c05.run_edit(case)
    o = Outcome()
    if case['k'] == 'self':
        got = refs.whipple(refs.BENCH)
        for a, b in zip(got, (refs.BENCH_M, refs.BENCH_C1, refs.BENCH_K0, refs.BENCH_K2)):
            assert np.allclose(a, b, rtol=0, atol=1e-12)
        got = bicycle.benchmark_par_to_canonical(dict(refs.BENCH))
        for n, a, b in zip(('M', 'C1', 'K0', 'K2'), got, (refs.BENCH_M, refs.BENCH_C1, refs.BENCH_K0, refs.BENCH_K2)):
            o.check(close(a, b, 1e-12, 1e-12), 'published-' + n, lambda: '%r %r' % (a, b))
        return o
    if case['k'] == 'ints':
        # integer valued inputs mean the same as floats
        for dev in case['pts']:
            p = {k: int(round(v)) for k, v in refs.BENCH.items()}
            p.update(w=1, rR=1, rF=2, c=1, IHxx=1, IHzz=2, IHyy=1, IFxx=1, IFyy=3, IRxx=1, IRyy=2, IHxz=0, lam=0)
            p.update(dev)
            exp = refs.whipple(p)
            d = dict(p)
            mats(o, bicycle.benchmark_par_to_canonical(d), exp, 'ints:can', p)
            o.check(d == p, 'mutated:function', '')
            can = bicycle.benchmark_par_to_canonical(dict(p))
            if np.linalg.cond(exp[0]) < 1e7:
                mats(o, bicycle.ab_matrix(*can, p['v'], p['g']), refs.state_space(*exp, p['v'], p['g']), 'ints:ab', p)
        return o
    for dev in case['pts']:
        p = dict(BASES[case['base']], **dev)
        if valid(p):
            point(o, p, case['full'])
    return o


def cases(tier):
    # questions to loaded bicycles whose parameters are edited in between
    for name in ('synthetic', 'uncertain'):
        ops = ['can', 'nom', 'ss', 'mB', 'w', 'IFyy', 'g', 'new']
        for n in (2, 3) if tier == 'quick' else (2, 3, 4):
            for blk in chunks((s for s in itertools.product(ops, repeat=n) if s[-1] in ops[:3]), 100):
                yield {'k': 'edit', 'b': name, 'seqs': [list(x) for x in blk]}
    for n in (2, 3) if tier == 'quick' else (2, 3, 4):
        for blk in chunks(live.sequences('W', n), 100):
            yield {'k': 'live', 'seqs': [list(x) for x in blk]}
    yield {'k': 'self'}
    for base in BASES:
        for blk in chunks(deviations(refs.W_MENU, None, 1), 10):
            yield {'k': 'lat', 'base': base, 'pts': blk, 'full': True}
    menu = {k: [0, 1, 2, 3] for k in ('c', 'lam', 'g', 'v', 'IBxz', 'xB', 'xH')}
    menu.update({k: [1, 2, 5] for k in ('w', 'rR', 'rF', 'mB', 'mR', 'mF', 'mH')})
    for blk in chunks(deviations(menu, None, 2), 100):
        yield {'k': 'ints', 'pts': blk}
    for base in BASES:
        for blk in chunks((d for d in deviations(refs.W_MENU, None, 2) if len(d) == 2), 50):
            yield {'k': 'lat', 'base': base, 'pts': blk, 'full': base == 'meij' or tier != 'quick'}
    for base in BASES:
        for blk in chunks((d for d in deviations(refs.W_MENU, None, 3) if len(d) == 3), 200):
            yield {'k': 'lat', 'base': base, 'pts': blk, 'full': tier != 'quick'}
    if tier != 'quick':
        for blk in chunks((d for d in deviations(refs.W_MENU, None, 4) if len(d) == 4), 500):
            yield {'k': 'lat', 'base': 'bench', 'pts': blk, 'full': False}
