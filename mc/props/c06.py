"""C06: mode sorting only reorders eigenpairs and follows each mode.

Enumerated: all sequences of eigenvalue multisets over small complex lattices
(all orders of every later step), all bounded displacements x all orders of
well separated sets, and real model eigenvalue sequences with every step order.
Eigenvectors are tagged so that every output column identifies the input pair
it came from.
"""
import itertools

import numpy as np

from mc import refs
from mc.engine import Outcome, chunks

from bicycleparameters.bicycle import sort_eigenmodes, sort_modes

ID = 'C06'
LEVEL = 'exploration'
TECHNIQUE = ('exhaustive enumeration of all eigenvalue sequences over small complex lattices (all multisets, all orders, up to a number of steps) on '
             'the real code, oracle: tagged-pair bijection and half-separation tracking')
LEVEL_NOTE = ('All two-step sequences of 4 values over a 5 point lattice, all three-step (thorough four-step) sequences over a 3 point lattice, sizes 1..4, crowded sets of 5 and 6 (thorough to 8) modes, all '
              'displacement vectors x 24 orders of separated sets. Eigenvalue magnitudes beyond the lattices are represented by real model sequences.')
RULE = 'one evaluation = one sequence sorted by both functions and judged'
ASSUMPTIONS = ['eigenvalues are finite']


def tags(n, m):
    i, r, k = np.meshgrid(np.arange(n), np.arange(m), np.arange(m), indexing='ij')
    return (1000.0*i + 10.0*r + 100.0*k + 1.0).astype(complex)*(1 + 0.5j)


def decode(col, i):
    """the input column an output eigenvector came from, or None"""
    m = len(col)
    v = col/(1 + 0.5j) - 1000.0*i - 1.0 - 10.0*np.arange(m)
    k = v/100.0
    k0 = int(round(float(np.real(k[0]))))
    return k0 if np.allclose(k, k0, atol=1e-9) else None


def perms_of(o, ev, E, V, sig, msg):
    """permutations used at each step or None"""
    n, m = ev.shape
    if not o.check(np.shape(E) == (n, m) and np.shape(V) == (n, m, m), sig + ':shape', msg):
        return None
    out = []
    for i in range(n):
        ks = [decode(V[i][:, j], i) for j in range(m)]
        if not (None not in ks and sorted(ks) == list(range(m))):
            o.fail(sig + ':not-a-permutation', '%s step %d columns %r' % (msg(), i, ks))
            return None
        if not all(E[i, j] == ev[i, k] for j, k in enumerate(ks)):
            o.fail(sig + ':pairs-separated', '%s step %d got %r for columns %r' % (msg(), i, E[i], ks))
            return None
        out.append(tuple(ks))
    if out[0] != tuple(range(m)):
        o.fail(sig + ':first-step', '%s %r' % (msg(), out[0]))
    return out


def unique_choices(ev):
    """no ties: distances between consecutive sets are pairwise distinct"""
    for i in range(len(ev) - 1):
        d = np.abs(ev[i + 1][None, :] - ev[i][:, None])
        for row in d:
            s = np.sort(row)
            if np.any(np.diff(s) < 1e-9):
                return False
    return True


def judge(o, ev, follow=None):
    """follow: expected permutations or None"""
    ev = np.asarray(ev)
    n, m = ev.shape
    V = tags(n, m)
    e0, V0 = ev.copy(), V.copy()
    msg = lambda: 'eigenvalues %r' % (ev.tolist(),)
    o.evals += 1
    o.states += 1
    E, W = sort_eigenmodes(ev, V)
    if not (np.array_equal(ev, e0) and np.array_equal(V, V0)):
        o.fail('inputs-changed', msg())
    p = perms_of(o, ev, np.asarray(E), np.asarray(W), 'sort_eigenmodes', msg)
    if p is None:
        return
    o.key(tuple(p))
    if follow is not None and p != follow:
        o.fail('does-not-follow', '%s got %r expected %r' % (msg(), p, follow))
    if m == 4:
        wea, cap, cas = sort_modes(ev, V)
        if not (np.array_equal(ev, e0) and np.array_equal(V, V0)):
            o.fail('inputs-changed', msg())
        try:
            E2 = np.column_stack([cas['evals'], cap['evals'], wea['evals']])
            W2 = np.concatenate([np.reshape(cas['evecs'], (n, 4, 1)), np.reshape(cap['evecs'], (n, 4, 1)), wea['evecs']], axis=2)
        except Exception as e:
            o.fail('sort_modes:shape', '%s %r' % (msg(), e))
            return
        p2 = perms_of(o, ev, E2, W2, 'sort_modes', msg)
        if p2 is not None and p2 != p and (follow is not None or unique_choices(ev)):
            o.fail('sort_modes:order', '%s %r vs %r' % (msg(), p2, p))


L5 = [0.0, 1.0, -1.0, 1.0 + 1.0j, 1.0 - 1.0j]
L3 = [0.0, 1.0, 1.0 + 1.0j]
L7 = [0.0, 1.0, -1.0, 2.0, 1j, -1j, 1.0 + 2.0j]
SEP = [[-6.0, -1.0, 2.0 + 3.0j, 2.0 - 3.0j], [3.0j, -3.0j, 0.0, 5.0], [0.0, 1.0, 2.0, 3.0], [-8.0, 1e-3, 0.4 + 2j, 0.4 - 2j],
       [-5.0, -4.0, 100.0, 120.0j]]
DIRS = [0.0, 0.49, -0.49, 0.49j, -0.2 - 0.4j]


def run(case):
    o = Outcome()
    k = case['k']
    if k == 'two':
        first = [complex(*x) for x in case['first']]
        lat = [complex(*x) for x in case['lat']]
        for second in itertools.product(lat, repeat=len(first)):
            judge(o, np.array([first, second]))
    elif k == 'multi':
        first = [complex(*x) for x in case['first']]
        lat = [complex(*x) for x in case['lat']]
        last = itertools.combinations_with_replacement if case.get('lastsorted') else lambda l, m: itertools.product(l, repeat=m)
        gens = [list(itertools.product(lat, repeat=len(first)))]*(case['steps'] - 1) + [list(last(lat, len(first)))]
        for rest in itertools.product(*gens):
            judge(o, np.array([first] + list(rest)))
    elif k == 'follow':
        base = np.array(SEP[case['i']], dtype=complex)
        sep = np.array([min(abs(b - c) for j, c in enumerate(base) if j != i) for i, b in enumerate(base)])
        pm = case['perm']
        # the modes move; the pm'th order of the second set is presented
        for d in itertools.product(DIRS, repeat=4):
            nxt = base + sep*np.array(d)
            rows = [base, nxt[list(pm)]]
            follow = [tuple(range(4)), tuple(int(np.argsort(pm)[j]) for j in range(4))]
            judge(o, np.array(rows), follow)
    elif k == 'follow12':
        # many modes, several steps, every rotation/reversal of the order
        m, n = case['m'], 5
        base = np.array([complex((j % 4)*3.0, (j//4)*4.0) for j in range(m)])
        path = [base + 0.3*i*np.exp(1j*(np.arange(m) + case['s'])) for i in range(n)]
        orders = [np.roll(np.arange(m), s)[::d] for s in range(m) for d in (1, -1)]
        for a in orders:
            for b in orders[::3]:
                ps = [np.arange(m), a, b, a[b], b[a]]
                rows = np.array([path[i][ps[i]] for i in range(n)])
                follow = [tuple(int(x) for x in np.argsort(p)) for p in ps]
                judge(o, rows, follow)
    elif k == 'crowd':
        # more modes than a bicycle has; neighbours meet, cross and coincide
        base = np.arange(case['m'], dtype=float)
        if case['cplx']:
            base = base.astype(complex)
            base[::2] += 0.3j
        for d in itertools.product([0.0, 0.9, -0.9] if case['m'] > 5 else [0.0, 0.9, -0.9, 2.2], repeat=case['m']):
            judge(o, np.array([base, base + np.array(d)]))
            if sum(x != 0 for x in d) < 4:
                judge(o, np.array([base, base + np.array(d), base[::-1], base - np.array(d)]))
    elif k == 'model':
        sp = np.linspace(*case['speeds'])
        p = dict(refs.BENCH if case['b'] == 'bench' else refs.MEIJ)
        ev = np.array([np.linalg.eigvals(refs.whipple_ss(p, v=v)[0]) for v in sp])
        ev = ev.astype(complex)
        judge(o, ev)
        for pm in itertools.permutations(range(4)):
            e = ev.copy()
            e[1::2] = e[1::2][:, list(pm)]
            judge(o, e)
        # real and integer typed sequences
        judge(o, np.real(ev))
        judge(o, np.round(np.real(ev)).astype(int).astype(float))
    elif k == 'one':
        for s in itertools.product(L7, repeat=case['m']):
            judge(o, np.array([s]))
    return o


def c2(z):
    z = complex(z)
    return [z.real, z.imag]


def cases(tier):
    q = tier == 'quick'
    for m in (1, 2, 3):
        yield {'k': 'one', 'm': m}
        for first in itertools.product(L7, repeat=m) if m < 3 else itertools.combinations_with_replacement(L7, m):
            yield {'k': 'two', 'first': [c2(x) for x in first], 'lat': [c2(x) for x in L7]}
    for first in itertools.combinations_with_replacement(L5, 4) if q else itertools.product(L5, repeat=4):
        yield {'k': 'two', 'first': [c2(x) for x in first], 'lat': [c2(x) for x in L5]}
    for m, steps in ((2, 3), (3, 2), (4, 2)) if q else ((2, 4), (3, 3), (4, 2)):
        for first in itertools.combinations_with_replacement(L3, m) if q else itertools.product(L3, repeat=m):
            yield {'k': 'multi', 'first': [c2(x) for x in first], 'lat': [c2(x) for x in L3], 'steps': steps,
                   'lastsorted': q and m == 4}
    for i in range(len(SEP)):
        for pm in itertools.permutations(range(4)):
            yield {'k': 'follow', 'i': i, 'perm': list(pm)}
    for m in (5, 8, 12):
        for s in (0.0, 1.0, 2.5):
            yield {'k': 'follow12', 'm': m, 's': s}
    for m in (5, 6) if q else (5, 6, 7, 8):
        for cplx in (False, True):
            yield {'k': 'crowd', 'm': m, 'cplx': cplx}
    for b in ('bench', 'meij'):
        for sp in ((0.0, 10.0, 12), (0.0, 10.0, 101), (10.0, -10.0, 41), (4.0, 7.0, 31), (0.0, 0.0, 3)):
            yield {'k': 'model', 'b': b, 'speeds': list(sp)}
CHUNK = 2
