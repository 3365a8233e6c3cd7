"""C05: eigen-solutions solve the eigenproblem of the matching state matrix.

Enumerated: parameter deviations of all three models (right and left, scalar
and array parameters), all sequences of speeds up to a length over a speed
alphabet (with repeats, zero, negative) in every container for loaded bicycles
with and without rider, modal controllability angles for parameter deviations.
Oracle: residuals against an independently assembled state matrix and its
characteristic polynomial.
"""
import copy
import itertools

import numpy as np

from mc import live, refs
from mc.bikes import DATA, load_params, nom, shipped, unc
from mc.engine import Outcome, chunks, deviations, uniq
from mc.models_common import BASES, make
from mc.props import c01, c04

ID = 'C05'
LEVEL = 'exploration'
TECHNIQUE = ('exhaustive enumeration of parameter deviations and of all speed sequences up to a bound on the real code, oracle: '
             'eigen residuals and characteristic polynomial of independently assembled state matrices')
LEVEL_NOTE = ('All <=2 (lean model <=1) parameter deviations, left/right; every parameter as array; all speed sequences of length <=3 (thorough 4-5) over a 7 '
              'letter alphabet x containers x 5 bicycles. Eigenvalue agreement is judged through the characteristic polynomial so that defective matrices are covered.')
RULE = 'one evaluation = one complete eigen solution (all pairs) or one angle table judged'
ASSUMPTIONS = ['residual tolerance 1e-8 relative to the matrix norm']


def judge(o, A, evals, evecs, sig, msg):
    evals, evecs = np.asarray(evals), np.asarray(evecs)
    n = A.shape[0]
    ok = o.check(evals.shape == (n,) and evecs.shape == (n, n), sig + ':shape', lambda: msg() + ' %r %r' % (evals.shape, evecs.shape))
    if not ok:
        return
    o.states += 1
    o.check(refs.eig_residual(A, evals, evecs) < 1e-8, sig + ':residual', lambda: '%s residual %g evals %r' % (msg(), refs.eig_residual(A, evals, evecs), evals))
    o.check(refs.charpoly_error(A, evals) < 1e-8, sig + ':all-present', lambda: '%s %r of %r' % (msg(), evals, A))
    o.check(np.allclose(np.linalg.norm(evecs, axis=0), 1.0, rtol=1e-9), sig + ':unit', msg)
    o.key(uniq(np.sort_complex(evals)))


def ref_A(kind, p):
    if kind == 'W':
        return refs.whipple_ss(p)[0]
    if kind == 'FB':
        return refs.feedback_ss(p)[0]
    return refs.lean_ss(p)[0]


def skip(kind, p):
    if kind == 'L':
        return False
    return p['mH'] + p['mF'] <= 0 or not np.linalg.cond(refs.whipple(p)[0]) < 1e6


def run_points(case):
    o = Outcome()
    kind = case['m']
    for dev in case['pts']:
        p = dict(BASES[kind], **dev)
        if skip(kind, p):
            o.trivial += 1
            continue
        A = ref_A(kind, p)
        m = make(kind, dev)
        judge(o, A, *m.calc_eigen(), 'right', lambda: '%s %r' % (kind, dev))
        judge(o, A.T, *m.calc_eigen(left=True), 'left', lambda: '%s %r' % (kind, dev))
    return o


def run_array(case):
    o = Outcome()
    kind, key = case['m'], case['key']
    menu = refs.W_MENU if kind != 'L' else c04.MENU
    vals = [BASES[kind][key]] + list(menu.get(key, [-1.0, 0.5]))
    if key in refs.GAINS:
        vals = [0.0, -3.0, 20.0]
    if kind != 'L':
        vals = [x for x in vals if not skip(kind, dict(BASES[kind], **{key: x}))]
    a, b = vals[0], vals[-1]
    near = a*(1.0 + 1e-6) + (1e-6 if a == 0 else 0.0)
    seqs = list(itertools.permutations(vals, min(3, len(vals)))) + [(a, a, b), (b, a, a), (a, b, a), (a, near, b, near), (near, a)]
    if key == 'v' or key in refs.GAINS:
        # the sign of one value only
        seqs += [(b, -b, a), (-b, b), (-b, -b, b)]
    for seq in seqs:
        for extra in case['extra']:
            if key in extra:
                continue
            m = make(kind)
            over = dict(extra, **{key: np.array(seq, dtype=float)})
            for left in (False, True):
                ev, vec = m.calc_eigen(left=left, **over)
                if not o.check(np.shape(ev)[:1] == (len(seq),) and np.shape(vec)[:1] == (len(seq),), 'array:shape', repr(over)):
                    continue
                for i, x in enumerate(seq):
                    A = ref_A(kind, dict(BASES[kind], **dict(extra, **{key: x})))
                    judge(o, A.T if left else A, ev[i], vec[i], 'array-left' if left else 'array', lambda: '%s %r index %d' % (kind, over, i))
    return o


def angle(q, b, acute):
    c = np.real(np.sum(np.conj(q)*b))/np.sqrt(np.sum(np.abs(q)**2)*np.sum(b**2))
    c = min(1.0, max(-1.0, c))
    return np.arccos(abs(c) if acute else c)


def run_ctrb(case):
    o = Outcome()
    kind = case['m']
    for dev in case['pts']:
        p = dict(BASES[kind], **dev)
        if skip(kind, p):
            continue
        m = make(kind, dev)
        if not hasattr(m, '_calc_modal_controllability'):
            break  # not a public name
        for acute in (True, False):
            ev, Q = m.calc_eigen(left=True)
            B = refs.whipple_ss(p)[1]
            A = ref_A(kind, p)
            got = np.asarray(m._calc_modal_controllability(acute=acute))
            exp = np.array([[angle(Q[:, i], B[:, j], acute) for j in range(2)] for i in range(4)])
            # arccos amplifies round off near zero angle
            o.check(refs.eig_residual(A.T, ev, Q) < 1e-8 and got.shape == (4, 2) and np.allclose(got, exp, atol=1e-6), 'angles',
                    lambda: '%r acute=%r\n%r\n%r' % (dev, acute, got, exp))
            o.states += 1
            speeds = [0.5, 3.0, 6.0, 8.0]
            got = np.asarray(m._calc_modal_controllability(acute=acute, v=np.array(speeds)))
            ev, Q = m.calc_eigen(left=True, v=np.array(speeds))
            if not o.check(got.shape == (4, 4, 2), 'angles:shape', ''):
                continue
            for k, v in enumerate(speeds):
                B = refs.whipple_ss(dict(p, v=v))[1]
                exp = np.array([[angle(Q[k][:, i], B[:, j], acute) for j in range(2)] for i in range(4)])
                ok = any(np.allclose(got[k], exp[list(pm)], atol=1e-6) for pm in itertools.permutations(range(4)))
                if k == 0:
                    ok = np.allclose(got[k], exp, atol=1e-6)
                o.check(ok, 'angles:array', lambda: '%r v=%g\n%r\n%r' % (dev, v, got[k], exp))
                o.states += 1
    return o


# ------------------------------------------------------------------ bicycles
_B = {}


def bike(name):
    if name not in _B:
        par = {k: v for k, v in refs.BENCH.items() if k != 'v'}
        if name == 'synthetic':
            b = load_params(par)
        elif name == 'uncertain':
            b = load_params(unc(par))
        elif name == 'moon':
            b = load_params(dict(par, g=1.62))
        elif name == 'rider':
            b = shipped('Browser', forceRawCalc=False)
            b.add_rider('Jason')
        else:
            b = shipped(name)
        _B[name] = (b, nom(b.parameters['Benchmark']))
    return _B[name]


SPEEDS = [5.0, 0.0, -3.0, -5.0, 1.5, 8, 5.000005]
BIKES = ['synthetic', 'uncertain', 'moon', 'Browser', 'rider']


def run_bike(case):
    o = Outcome()
    b, p = bike(case['b'])
    can = refs.whipple(p)
    for seq in case['seqs']:
        fl = [float(x) for x in seq]
        forms = {'list': list(seq), 'array': np.array(fl), 'tuple': tuple(fl), 'reversed-view': np.array(fl[::-1])[::-1]}
        if all(float(x).is_integer() for x in seq):
            forms['ints'] = np.array([int(x) for x in seq])
        if len(seq) == 1:
            forms['scalar'] = fl[0]
            forms['npscalar'] = np.float64(fl[0])
        for f, s in forms.items():
            ev, vec = b.eig(s)
            ev, vec = np.asarray(ev), np.asarray(vec)
            if not o.check(ev.shape == (len(seq), 4) and vec.shape == (len(seq), 4, 4), 'bicycle:shape', '%r %r' % (s, ev.shape)):
                continue
            for i, v in enumerate(fl):
                A = refs.state_space(*can, v, p['g'])[0]
                judge(o, A, ev[i], vec[i], 'bicycle', lambda: '%s speeds %r index %d' % (case['b'], s, i))
    return o


# in place edits of a loaded bicycle's parameters between its answers
EDITS = {'mB': lambda p: p.update(mB=p['mB']*1.2), 'w': lambda p: p.update(w=p['w'] + 0.1), 'IFyy': lambda p: p.update(IFyy=p['IFyy']*2.0),
         'g': lambda p: p.update(g=p['g']/3.0)}
ASK = ['eig', 'can', 'nom', 'ss', 'eig2']


def run_edit(case):
    o = Outcome()
    base, _ = bike(case['b'])
    for seq in case['seqs']:
        b = copy.copy(base)
        b.parameters = {k: dict(v) for k, v in base.parameters.items()}
        for i, op in enumerate(seq):
            how = lambda: '%s %r' % (case['b'], seq[:i + 1])
            o.transitions += 1
            if op in EDITS:
                EDITS[op](b.parameters['Benchmark'])
                continue
            if op == 'new':
                b.parameters = dict(b.parameters, Benchmark=dict(b.parameters['Benchmark'], c=0.02))
                continue
            p = nom(b.parameters['Benchmark'])
            can = refs.whipple(p)
            if op in ('eig', 'eig2'):
                speeds = {'eig': [2.0, 5.0], 'eig2': [5.0]}[op]
                ev, vec = b.eig(speeds)
                if o.check(np.shape(ev) == (len(speeds), 4) and np.shape(vec) == (len(speeds), 4, 4), 'edit:shape', how):
                    for j, v in enumerate(speeds):
                        judge(o, refs.state_space(*can, v, p['g'])[0], ev[j], vec[j], 'edit', how)
                got = [ev, vec]
            elif op == 'ss':
                got = b.state_space(5.0)
                want = refs.state_space(*can, 5.0, p['g'])
                o.check(all(np.allclose(nom(x), y, rtol=1e-8, atol=1e-9) for x, y in zip(got, want)), 'edit:state-space', how)
            else:
                got = b.canonical(nominal=op == 'nom')
                o.check(all(np.allclose(nom(x), y, rtol=1e-9, atol=1e-9) for x, y in zip(got, can)), 'edit:canonical', how)
            for x in got:
                if isinstance(x, np.ndarray) and x.flags.writeable:
                    x[...] = -77.0
        o.validated += 1
    return o


def run(case):
    if case['k'] == 'live':
        return live.run(Outcome(), case['m'], case['seqs'], live.eigen)
    return {'edit': run_edit, 'pts': run_points, 'array': run_array, 'bike': run_bike, 'ctrb': run_ctrb}[case['k']](case)


def cases(tier):
    q = tier == 'quick'
    for kind in ('W', 'FB', 'L'):
        for n in (2,) if q else (2, 3):
            for blk in chunks(live.sequences(kind, n), 20):
                yield {'k': 'live', 'm': kind, 'seqs': [list(x) for x in blk]}
    menu = dict(refs.W_MENU)
    fmenu = dict(menu, **{k: [0.0, -4.0, 60.0] for k in refs.GAINS})
    for kind, mn, n in (('W', menu, 2 if q else 3), ('FB', fmenu, 2), ('L', c04.MENU, 1 if q else 2)):
        for blk in chunks(deviations(mn, None, n), 3 if kind == 'L' else 60):
            yield {'k': 'pts', 'm': kind, 'pts': blk}
    for kind in ('W', 'FB', 'L'):
        for key in BASES[kind]:
            yield {'k': 'array', 'm': kind, 'key': key, 'extra': [{}] if kind == 'L' and q else [{}, {'v': 6.0}, {'g': 1.62, 'v': 0.0}]}
    for name in BIKES:
        for n in (1, 2, 3) if q else (1, 2, 3, 4, 5):
            for blk in chunks(itertools.product(SPEEDS, repeat=n), 20):
                yield {'k': 'bike', 'b': name, 'seqs': [list(x) for x in blk]}
    for name in BIKES:
        ops = ASK + sorted(EDITS) + ['new']
        for n in (2, 3) if q else (2, 3, 4):
            # an answer first, an answer last
            for blk in chunks((s for s in itertools.product(ops, repeat=n) if s[-1] in ASK), 60 if q else 300):
                yield {'k': 'edit', 'b': name, 'seqs': [list(x) for x in blk]}
    for kind, mn in (('W', menu), ('FB', fmenu)):
        for blk in chunks(deviations(mn, None, 1 if q else 2), 6):
            yield {'k': 'ctrb', 'm': kind, 'pts': blk}
