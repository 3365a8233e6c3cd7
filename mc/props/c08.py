"""C08: converting a parameter set preserves the physical bicycle.

Enumerated: every source x target x chain of up to three conversions, over all
<=k deviations of the source values (rotated principal axes, massless parts,
asymmetric values), minimal and full dictionaries, and histories of conversions
of one live set (any order, with the results modified in between).
Oracle: independent rigid body description (mass, mass centre, tensor per body)
and the reference equations of motion.
"""
import itertools

import numpy as np

from mc import refs
from mc.engine import Outcome, chunks, close, deviations, uniq

from bicycleparameters import models, parameter_sets as ps

ID = 'C08'
LEVEL = 'model_checking'
TECHNIQUE = ('explicit-state exploration of the conversion graph (all chains up to a length, all histories on live objects) over all bounded parameter '
             'deviations, executed on the real code, oracle: independent rigid-body description of each parameterization')
LEVEL_NOTE = ('All chains of <=3 conversions from each of the 3 convertible parameterizations over all <=2 (thorough 3) parameter deviations; all conversion '
              'histories up to length 4. Targets for which the code offers no route may be refused.')
RULE = 'states are (source values, chain) pairs; one evaluation = one converted set compared body by body with the reference'
ASSUMPTIONS = ['inertia axis convention of the principal set: axis aa points along (cos alpha, 0, -sin alpha) in x-z axes (x forward, z down)']

NAMES = ['Moore2019', 'Meijaard2007', 'Meijaard2007WithFeedback', 'Moore2012', 'MooreRiderLean2012']
REQUIRED = {'Moore2019': {'Moore2019', 'Meijaard2007', 'Meijaard2007WithFeedback'},
            'Meijaard2007': {'Meijaard2007', 'Meijaard2007WithFeedback', 'Moore2012'},
            'Meijaard2007WithFeedback': {'Meijaard2007WithFeedback', 'Moore2012'},
            'Moore2012': {'Moore2012'}, 'MooreRiderLean2012': {'MooreRiderLean2012'}}
BAD = ['Foo', '', 'meijaard2007', 'Meijaard2007ParameterSet']
BASES = {'Moore2019': refs.M2019, 'Meijaard2007': refs.MEIJ, 'Meijaard2007WithFeedback': refs.FB}
MENUS = {'Moore2019': refs.P_MENU, 'Meijaard2007': refs.W_MENU,
         'Meijaard2007WithFeedback': dict(refs.W_MENU, **{k: [0.0, 33.0] for k in refs.GAINS})}


def build(kind, p, rider=True):
    p = {k: float(v) for k, v in p.items()}
    if kind == 'Moore2019':
        return ps.Moore2019ParameterSet(p)
    if kind == 'Meijaard2007':
        return ps.Meijaard2007ParameterSet(p, rider)
    return ps.Meijaard2007WithFeedbackParameterSet(p, rider)


def bench_of(kind, p):
    return refs.principal_to_benchmark(p) if kind == 'Moore2019' else p


def full(kind, p, stray=False):
    """the same bicycle with the redundant parameters spelled out, or with
    meaningless further entries and another order"""
    q = dict(p)
    if stray:
        # entries that the parameterization does not have mean nothing
        if kind == 'Moore2019':
            q.update(alphaF=.3, alphaR=-.2, yD=.01, yP=.02, yH=.03, yR=.04, yF=.05, xR=.06, xF=.07, zR=.08, zF=.09, mB=3.0, xB=.1)
        else:
            q.update(IFzz=.5, IRzz=.6, IFxz=.1, IRxz=.2, yB=.01, yH=.02, yR=.03, yF=.04, xR=.05, zR=.06, xF=.07, zF=.08, mD=9.0, xP=.3)
        if kind != 'Meijaard2007WithFeedback':
            q.update({k: 2.5 - i for i, k in enumerate(refs.GAINS)})
        q.update(foo=1.0, mX=40.0, beta=.3)
        return {k: q[k] for k in sorted(q, key=lambda k: (k[::-1], k), reverse=True)}
    if kind == 'Moore2019':
        q.update(alphaF=0., alphaR=0., yD=0., yP=0., yH=0., yR=0., yF=0., xR=0., xF=p['w'], zR=-p['rR'], zF=-p['rF'],
                 kRbb=p['kRaa'], kFbb=p['kFaa'])
    else:
        q.update(IFzz=p['IFxx'], IRzz=p['IRxx'], IFxz=0., IRxz=0., yB=0., yH=0., xR=0., zR=-p['rR'], xF=p['w'], zF=-p['rF'])
    return q


def same_bodies(o, kind, q, b, msg, gains=None):
    """does the set ``q`` of parameterization kind describe benchmark bicycle b?"""
    sig = 'to-' + kind
    if kind.startswith('Meijaard2007'):
        for k in ('w', 'c', 'lam', 'g', 'v', 'rR', 'rF'):
            o.check(close(q[k], b[k], 1e-12, 1e-12), sig + ':geometry', lambda: '%s %s %r %r' % (msg(), k, q[k], b[k]))
        e, g = refs.bodies(b), refs.bodies(q)
        if kind.endswith('Feedback'):
            o.check(all(q[k] == (gains or {}).get(k, 0.0) for k in refs.GAINS), sig + ':gains', msg)
    elif kind == 'Moore2012':
        lam = b['lam']
        sl, cl = np.sin(lam), np.cos(lam)
        ok = (close(q['rf'], b['rF']) and close(q['rr'], b['rR']) and close(q['g'], b['g']) and close(q['v'], b['v'])
              and close(q['d3'], b['rF']*sl - b['c']*cl)
              and close((q['d1'] + q['d3'])*cl + q['d2']*sl, b['w'])
              and close(-(q['d1'] + q['d3'])*sl + q['d2']*cl, b['rR'] - b['rF']))
        o.check(ok, sig + ':geometry', lambda: '%s %r' % (msg(), q))
        g = refs.lean_bodies(q, lam)[0]
        g['B'] = g.pop('C')
        e = refs.bodies(b)
    else:
        o.fail(sig + ':unknown-target', msg())
        return
    for k in 'RBHF':
        o.check(close(g[k][0], e[k][0], 1e-12, 1e-13), sig + ':mass', lambda: '%s body %s' % (msg(), k))
        if e[k][0] > 0:
            o.check(np.allclose(g[k][1], e[k][1], rtol=0, atol=1e-9), sig + ':mass-center', lambda: '%s body %s %r %r' % (msg(), k, g[k][1], e[k][1]))
        o.check(np.allclose(g[k][2], e[k][2], rtol=0, atol=1e-9*(1 + np.max(np.abs(e[k][2])))), sig + ':inertia',
                lambda: '%s body %s\n%r\n%r' % (msg(), k, g[k][2], e[k][2]))


def convert(o, s, kind, target, msg):
    """returns converted set or None when refused"""
    before = dict(s.parameters)
    try:
        r = s.to_parameterization(target)
    except ValueError:
        r = None
    o.transitions += 1
    o.check(s.parameters == before and s.parameterization == kind, 'source-altered', msg)
    if r is None:
        o.check(target not in REQUIRED[kind], 'refused', lambda: '%s -> %s refused: %s' % (kind, target, msg()))
        return None
    o.check(r.parameterization == target, 'wrong-type', lambda: '%s %r' % (msg(), r.parameterization))
    if target == kind:
        o.check(r.parameters == before, 'self-conversion', msg)
    return r


def motion(o, s, b, msg):
    if b['mH'] + b['mF'] <= 0 or not np.linalg.cond(refs.whipple(b)[0]) < 1e6:
        return
    e = refs.whipple(b)
    m = models.Meijaard2007Model(s) if s.parameterization != 'Meijaard2007WithFeedback' else None
    if m is not None:
        got = m.form_reduced_canonical_matrices()
        o.check(all(close(x, y, 1e-9, 1e-9) for x, y in zip(got, e)), 'model:equations', lambda: '%s %r %r' % (msg(), got, e))
    m = models.Meijaard2007WithFeedbackModel(s)
    got = m.form_reduced_canonical_matrices()
    o.check(all(close(x, y, 1e-9, 1e-9) for x, y in zip(got, e)), 'model:equations', lambda: '%s %r %r' % (msg(), got, e))


def run_points(case):
    o = Outcome()
    kind = case['src']
    for dev in case['pts']:
        p = dict(BASES[kind], **dev)
        if kind == 'Moore2019' and p['mD'] + p['mP'] <= 0:
            continue
        b = bench_of(kind, p)
        o.key(uniq([b[k] for k in sorted(b)]))
        for form in case['forms']:
            s = build(kind, full(kind, p, form == 2) if form else p, rider=bool(len(dev) % 2))
            keep = dict(s.parameters)
            msg = lambda: '%s %r full=%r' % (kind, dev, form)
            frontier = [(kind, s, (kind,))]
            o.states += 1
            for depth in range(case['depth']):
                nxt = []
                for k0, s0, ch in frontier:
                    for t in NAMES:
                        m2 = lambda: '%s chain %r' % (msg(), ch + (t,))
                        r = convert(o, s0, k0, t, m2)
                        if r is None:
                            continue
                        o.states += 1
                        if t != 'Moore2019':
                            gains = {k: p.get(k, 0.0) for k in refs.GAINS} if ch[0].endswith('Feedback') and all(c.endswith('Feedback') for c in ch) else None
                            same_bodies(o, t, r.parameters, b, m2, gains)
                        if hasattr(s0, 'includes_rider') or k0 == 'Moore2019':
                            o.check(getattr(r, 'includes_rider', True) == getattr(s0, 'includes_rider', True), 'rider-flag', m2)
                        if t != k0 and len(ch) < 3:
                            nxt.append((t, r, ch + (t,)))
                frontier = nxt
            if form != 1:
                motion(o, s, b, msg)
            o.check(s.parameters == keep, 'source-altered', msg)
    return o


def run_hist(case):
    """conversions of one live object in any order; results are then modified"""
    o = Outcome()
    kind = case['src']
    p = dict(BASES[kind])
    b = bench_of(kind, p)
    s = build(kind, p)
    keep = dict(s.parameters)
    for t in case['h']:
        msg = lambda: 'history %r' % (case,)
        if t in BAD:
            try:
                s.to_parameterization(t)
                o.check(False, 'bad-target-accepted', msg)
            except ValueError:
                o.check(True, 'bad-target-accepted')
            o.transitions += 1
        else:
            r = convert(o, s, kind, t, msg)
            if r is not None and t != 'Moore2019':
                gains = {k: p[k] for k in refs.GAINS} if kind.endswith('Feedback') and t == kind else None
                same_bodies(o, t, r.parameters, b, msg, gains)
                if r is not s:
                    for k in list(r.parameters):
                        r.parameters[k] = 12.5
        o.check(s.parameters == keep, 'source-altered', msg)
        o.states += 1
    o.validated += 1
    return o


def run(case):
    return run_hist(case) if 'h' in case else run_points(case)


def cases(tier):
    q = tier == 'quick'
    for kind in BASES:
        for blk in chunks(deviations(MENUS[kind], None, 1), 5):
            yield {'src': kind, 'pts': blk, 'forms': [0, 1, 2], 'depth': 3}
    for kind in BASES:
        for n in (1, 2, 3):
            for h in itertools.product(NAMES + BAD[:2 if n > 1 else 4], repeat=n):
                yield {'src': kind, 'h': list(h)}
    for kind in BASES:
        for blk in chunks((d for d in deviations(MENUS[kind], None, 2) if len(d) == 2), 40):
            yield {'src': kind, 'pts': blk, 'forms': [0, 1], 'depth': 3}
    if not q:
        for kind in BASES:
            for blk in chunks((d for d in deviations(MENUS[kind], None, 3) if len(d) == 3), 200):
                yield {'src': kind, 'pts': blk, 'forms': [0], 'depth': 1}
