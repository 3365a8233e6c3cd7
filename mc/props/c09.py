"""C09: masses, mass centres and inertia tensors are consistent for any subset.

Enumerated: every non-empty ordered selection of bodies (all permutations of
all subsets) for every <=k deviation of every parameter set type, and all query
histories up to a length on one live set, with the returned arrays overwritten
by the caller and stored parameters changed in between.
"""
import itertools

import numpy as np
from uncertainties import ufloat

from mc import refs
from mc.bikes import nom
from mc.engine import Outcome, chunks, deviations, uniq
from mc.props.c08 import BASES, MENUS, build, full

from bicycleparameters.com import total_com

ID = 'C09'
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of all ordered body selections over all bounded parameter deviations plus explicit-state exploration of query '
             'histories on live objects, oracle: independent rigid-body description')
LEVEL_NOTE = ('All 64 (4 bodies) / 325 (5 bodies) ordered selections, all <=1 deviations complete and <=2 (thorough 3) deviations for sorted selections; '
              'query/mutate histories up to length 4 (thorough 5).')
RULE = 'one evaluation = one reported vector or tensor compared; states are (values, selection) pairs or history prefixes'
ASSUMPTIONS = ['selections do not name a body twice; the selected bodies have some mass']


def ref_bodies(kind, p):
    return refs.principal_bodies(p) if kind == 'Moore2019' else refs.bodies(p)


def selections(names, ordered):
    for n in range(1, len(names) + 1):
        for s in (itertools.permutations if ordered else itertools.combinations)(names, n):
            yield s


def run_points(case):
    o = Outcome()
    kind = case['src']
    for dev in case['pts']:
        p = dict(BASES[kind], **dev)
        e = ref_bodies(kind, p)
        for form in case['forms']:
            s = build(kind, full(kind, p, form == 2) if form else p)
            keep = dict(s.parameters)
            names = sorted(e)
            o.check(sorted(s.body_labels) == names, 'labels', repr(s.body_labels))
            for b in names:
                r = np.asarray(s.form_mass_center_vector(b))
                o.check(r.shape == (3,) and np.allclose(r, e[b][1], rtol=0, atol=1e-12), 'vector', lambda: '%s %r %s %r' % (kind, dev, b, r))
                if kind != 'Moore2019':
                    t = np.asarray(s.form_inertia_tensor(b))
                    o.check(t.shape == (3, 3) and np.allclose(t, e[b][2], rtol=0, atol=1e-12), 'tensor', lambda: '%s %r %s %r' % (kind, dev, b, t))
                    if b in 'RF':
                        o.check(t.shape == (3, 3) and t[0, 0] == t[2, 2] and t[0, 2] == 0, 'wheel-symmetry', lambda: repr(t))
            for sel in selections(names, case['ordered']):
                m = sum(e[b][0] for b in sel)
                if m <= 0 and len(sel) > 1:
                    o.trivial += 1
                    continue
                exp = e[sel[0]][1] if len(sel) == 1 else sum(e[b][0]*e[b][1] for b in sel)/m
                got = np.asarray(s.mass_center_of(*sel))
                o.check(got.shape == (3,) and np.allclose(got, exp, rtol=0, atol=1e-11), 'mass-center',
                        lambda: '%s %r %r got %r expected %r' % (kind, dev, sel, got, exp))
                o.check(got.shape == (3,) and got[1] == 0.0, 'out-of-plane', lambda: repr(got))
                o.key(uniq(exp))
                o.states += 1
            o.check(s.parameters == keep, 'set-changed', lambda: '%s %r' % (kind, dev))
    return o


HOPS = ['vec', 'tensor', 'pair', 'all', 'scribble', 'edit', 'plot']


def run_hist(case):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    o = Outcome()
    kind = case['src']
    p = dict(BASES[kind])
    s = build(kind, p)
    last = []
    for i, op in enumerate(case['h']):
        e = ref_bodies(kind, p)
        names = sorted(e)
        msg = lambda: 'history %r step %d' % (case, i)
        if op == 'vec':
            last = [s.form_mass_center_vector(b) for b in names]
            o.check(all(np.allclose(x, e[b][1]) for x, b in zip(last, names)), 'hist:vector', msg)
        elif op == 'tensor':
            if kind != 'Moore2019':
                last = [s.form_inertia_tensor(b) for b in names]
                o.check(all(np.allclose(x, e[b][2]) for x, b in zip(last, names)), 'hist:tensor', msg)
        elif op in ('pair', 'all'):
            sel = names[:2] if op == 'pair' else names
            last = [s.mass_center_of(*sel)]
            m = sum(e[b][0] for b in sel)
            o.check(np.allclose(last[0], sum(e[b][0]*e[b][1] for b in sel)/m), 'hist:mass-center', msg)
            last.append(s.mass_center_of('H'))
            o.check(np.allclose(last[1], e['H'][1]), 'hist:mass-center', msg)
        elif op == 'scribble':
            for a in last:
                a[...] = 77.0
        elif op == 'edit':
            k = ['mH', 'xH', 'w'][i % 3]
            p[k] = p[k] + 0.25
            s.parameters[k] = p[k]
        elif op == 'plot':
            s.plot_mass_centers()
            s.plot_principal_inertia_ellipsoids()
            plt.close('all')
        o.check(s.parameters == {k: float(v) for k, v in p.items()}, 'hist:set-changed', msg)
        o.states += 1
        o.transitions += 1
    o.validated += 1
    return o


def run_total(case):
    """the plain function: all mass/coordinate assignments from small menus"""
    o = Outcome()
    n = case['n']
    ms = [0.0, 1.0, 2.5]
    cs = [(0.0, 0.0, 0.0), (1.0, -2.0, 3.0), (-0.5, 0.25, 0.0)]
    for mass in itertools.product(ms, repeat=n):
        if sum(mass) == 0:
            continue
        for pos in itertools.product(cs, repeat=n):
            C = np.array(pos).T
            exp = sum(m*np.array(c) for m, c in zip(mass, pos))/sum(mass)
            for form in ('array', 'list', 'unc'):
                a, b = (C.copy(), np.array(mass)) if form == 'array' else (C.tolist(), list(mass))
                if form == 'unc':
                    a = np.array([[ufloat(x, 0.1) for x in r] for r in C])
                    b = np.array([ufloat(x, 0.1) for x in mass])
                mt, ct = total_com(a, b)
                o.check(abs(nom(mt) - sum(mass)) < 1e-12 and np.allclose(nom(np.asarray(ct)), exp, atol=1e-12), 'total:' + form,
                        lambda: '%r %r' % (mass, pos))
                o.states += 1
                if form != 'unc':
                    o.check(np.array_equal(np.array(a), C) and np.array_equal(np.array(b), mass), 'total:arguments', '')
    return o


def run(case):
    if 'h' in case:
        return run_hist(case)
    if 'n' in case:
        return run_total(case)
    return run_points(case)


def cases(tier):
    q = tier == 'quick'
    for n in (1, 2, 3, 4):
        yield {'n': n}
    for kind in BASES:
        for blk in chunks(deviations(MENUS[kind], None, 1), 4):
            yield {'src': kind, 'pts': blk, 'forms': [0, 1, 2], 'ordered': True}
    for kind in BASES:
        for n in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5):
            for h in itertools.product(HOPS, repeat=n):
                if h.count('plot') > 1 or (n > 3 and h[0] in ('scribble', 'edit')):
                    continue
                if kind == 'Meijaard2007WithFeedback' and n > 3:
                    continue
                yield {'src': kind, 'h': list(h)}
    for kind in BASES:
        for blk in chunks((d for d in deviations(MENUS[kind], None, 2 if q else 3) if len(d) > 1), 40):
            yield {'src': kind, 'pts': blk, 'forms': [0], 'ordered': False}
