"""C17: inertia algebra obeys the laws of rigid bodies.

Every combination of tensors, masses, offsets, angles and number types from
finite menus (degenerate ones included) goes through the real functions; the
oracles are the laws themselves (explicit point-mass inertia, rotation
matrices, composition, inversion, order independence over all permutations
and groupings).
"""
import itertools
import math

import numpy as np
from uncertainties import ufloat

from mc import refs
from mc.bikes import nom, sd
from mc.engine import Outcome, chunks, deviations, snap

from bicycleparameters import com, inertia

ID = 'C17'
LEVEL = 'exploration'
TECHNIQUE = ('exhaustive enumeration of a finite grid of tensors x masses x offsets x angles x number types, all subsets/permutations/groupings of bodies and '
             'orientations, real functions against the rigid body laws')
LEVEL_NOTE = ('12 tensors (equal moments, full off-diagonals, zero, planar) x 27 (thorough 125) offsets x 4 masses; 19 x 19 angle pairs; all permutations and '
              'binary groupings of up to 4 bodies; all subsets of 3..6 orientations in all rotations of order.')
RULE = 'one evaluation = one law checked on the results of the real functions for one grid point'
ASSUMPTIONS = ['combined bodies lie in the symmetry plane when grouping independence is judged']

TENSORS = [[[2.0, 0, 0], [0, 3.0, 0], [0, 0, 1.0]], [[2.0, 0, -0.7], [0, 3.0, 0], [-0.7, 0, 1.0]], [[1.0, 0, 0.2], [0, 3.0, 0], [0.2, 0, 2.5]],
           [[2.0, 0, 0], [0, 2.0, 0], [0, 0, 2.0]], [[2.0, 0, 0], [0, 3.0, 0], [0, 0, 2.0]], [[0.0, 0, 0], [0, 0.0, 0], [0, 0, 0.0]],
           [[2.0, 0.3, -0.7], [0.3, 2.5, 0.4], [-0.7, 0.4, 1.5]], [[1.0, 0, 1e-9], [0, 1.0, 0], [1e-9, 0, 1.0]], [[1e-6, 0, 2e-7], [0, 2e-6, 0], [2e-7, 0, 1.5e-6]],
           [[1e4, 0, -3e3], [0, 2e4, 0], [-3e3, 0, 1.5e4]], [[3.0, 0, 1.0], [0, 1.0, 0], [1.0, 0, 3.0]], [[0.5, 0, 0.0], [0, 9.0, 0], [0.0, 0, 0.1]]]
MASSES = [0.0, 1.0, 2.5, 85.0]
KINDS = ['f', 'u', 'int']


def conv(x, kind, k=0):
    """number(s) in the wanted type; 'u': independent uncertain numbers"""
    if isinstance(x, (list, tuple)):
        return np.array([conv(v, kind) for v in x]) if not isinstance(x[0], (list, tuple)) else np.array([[conv(v, kind) for v in r] for r in x])
    if kind == 'u':
        return ufloat(x, 0.01*abs(x) + 1e-3)
    if kind == 'int' and x == int(x):
        return int(x)
    return float(x)


def near(a, b, scale=0.0, tol=1e-11):
    a, b = np.asarray(nom(np.asarray(a)), dtype=float), np.asarray(nom(np.asarray(b)), dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol*max(float(np.max(np.abs(b))) if b.size else 0, scale, 1e-9)))


def pm(m, d):
    d = np.asarray(d, dtype=float)
    return m*(np.dot(d, d)*np.eye(3) - np.outer(d, d))


def rot(angle):
    c, s = math.cos(angle), math.sin(angle)
    return np.array([[c, 0, -s], [0, 1, 0], [s, 0, c]])


def run_shift(case):
    o = Outcome()
    for it, m, d, kind in case['items']:
        I0 = np.array(TENSORS[it], dtype=float)
        I, mm, dd = conv(TENSORS[it], kind), conv(m, kind), conv(d, kind)
        before = snap([I, mm, dd])
        J = inertia.parallel_axis(I, mm, dd)
        msg = lambda: '%r m=%r d=%r %s -> %r' % (TENSORS[it], m, d, kind, J)
        o.check(near(J, I0 + pm(m, d)), 'shift', msg)
        o.check(snap([I, mm, dd]) == before, 'shift-args', msg)
        o.check(near(nom(J), nom(J).T), 'shift-symmetric', msg)
        # away and back through the mass centre
        K = inertia.parallel_axis(J, conv(-m, kind), dd)
        o.check(near(K, I0, scale=float(np.max(np.abs(pm(m, d)))) if m else 0), 'shift-back', msg)
        if kind == 'f':
            o.check(near(inertia.parallel_axis(I, mm, list(d)), J), 'shift-list', msg)
            o.check(near(inertia.parallel_axis(I, mm, [-x for x in d]), J), 'shift-mirror', msg)
        o.key((it, m, tuple(d), kind))
    return o


def run_rotate(case):
    o = Outcome()
    for it, a, b, kind in case['items']:
        I0 = np.array(TENSORS[it], dtype=float)
        I, aa = conv(TENSORS[it], kind), conv(a, kind)
        before = snap([I, aa])
        R = inertia.rotate_inertia_tensor(I, aa)
        msg = lambda: '%r a=%r b=%r %s -> %r' % (TENSORS[it], a, b, kind, R)
        o.check(near(R, rot(a).dot(I0).dot(rot(a).T)), 'rotate', msg)
        o.check(snap([I, aa]) == before, 'rotate-args', msg)
        o.check(near(np.linalg.eigvalsh(nom(R).astype(float)), np.linalg.eigvalsh(I0), tol=1e-10), 'rotate-eigenvalues', msg)
        R2 = inertia.rotate_inertia_tensor(R, conv(b, kind))
        o.check(near(R2, nom(inertia.rotate_inertia_tensor(I, conv(a + b, kind))), tol=1e-10), 'rotate-compose', msg)
        o.check(near(inertia.rotate_inertia_tensor(R, conv(-a, kind)), I0, tol=1e-10), 'rotate-inverse', msg)
        o.key((it, a, kind))
    return o


# a difference of inertias (or a bad measurement) need not be positive
INDEFINITE = [np.diag([-2.0, 1.0, 0.5]), np.diag([-3.0, -1.0, 2.0]), np.array([[1.0, 2.0, 0.0], [2.0, 1.0, -1.5], [0.0, -1.5, -0.5]]), -np.diag([3.0, 2.0, 1.0])]


def run_principal(case):
    o = Outcome()
    for it, a, ax in case['items']:
        I = np.array((TENSORS + INDEFINITE)[it], dtype=float)
        if ax == 'y':
            C0 = rot(a)
        elif ax == 'x':
            c, s = math.cos(a), math.sin(a)
            C0 = np.array([[1, 0, 0], [0, c, s], [0, -s, c]])
        else:
            c, s = math.cos(a), math.sin(a)
            C0 = np.array([[c, s, 0], [-s, c, 0], [0, 0, 1]])
        I = C0.dot(I).dot(C0.T)
        I = (I + I.T)/2
        before = I.copy()
        Ip, C = inertia.principal_axes(I)
        Ip, C = np.asarray(Ip), np.asarray(C)
        msg = lambda: '%r -> %r %r' % (I, Ip, C)
        o.check(Ip.shape == (3,) and C.shape == (3, 3), 'principal-shape', msg)
        o.check(bool(np.all(I == before)), 'principal-args', msg)
        scale = max(float(np.max(np.abs(I))), 1e-12)
        o.check(bool(np.all(np.diff(Ip) >= -1e-12*scale)), 'principal-order', msg)
        o.check(near(Ip, np.linalg.eigvalsh(I), scale=scale), 'principal-moments', msg)
        o.check(near(C.dot(C.T), np.eye(3), tol=1e-10), 'principal-orthonormal', msg)
        o.check(float(np.max(np.abs(C.T.dot(np.diag(Ip)).dot(C) - I))) <= 1e-10*scale, 'principal-reconstruct', msg)
        o.key((it, a, ax))
    return o


BODIES = [{'mB': 9.9, 'xB': 0.3, 'zB': -0.6, 'IBxx': 0.53, 'IByy': 1.3, 'IBzz': 0.8, 'IBxz': 0.2}, {'mB': 72.0, 'xB': 0.29, 'zB': -1.1, 'IBxx': 8.0, 'IByy': 8.1, 'IBzz': 2.4, 'IBxz': -1.9},
          {'mB': 15.0, 'xB': -0.2, 'zB': -0.9, 'IBxx': 0.3, 'IByy': 0.2, 'IBzz': 0.4, 'IBxz': 0.0}, {'mB': 0.5, 'xB': 1.0, 'zB': 0.0, 'IBxx': 0.0, 'IByy': 0.0, 'IBzz': 0.0, 'IBxz': 0.0}]


def whole(bs):
    m = sum(b['mB'] for b in bs)
    c = sum(b['mB']*np.array([b['xB'], 0, b['zB']]) for b in bs)/m
    I = sum(refs.tensor(b['IBxx'], b['IBxz'], b['IByy'], b['IBzz']) + pm(b['mB'], np.array([b['xB'], 0, b['zB']]) - c) for b in bs)
    return {'mB': m, 'xB': c[0], 'zB': c[2], 'IBxx': I[0, 0], 'IByy': I[1, 1], 'IBzz': I[2, 2], 'IBxz': I[0, 2]}


def trees(xs):
    """all binary groupings of a sequence"""
    if len(xs) == 1:
        return [xs[0]]
    return [(l, r) for i in range(1, len(xs)) for l in trees(xs[:i]) for r in trees(xs[i:])]


def body(i, kind):
    b = dict(BODIES[i])
    out = {k: conv(v, kind) if not (kind == 'mix' and k in ('mB', 'IBxz')) else conv(v, 'u') for k, v in b.items()}
    out['yB'] = conv(0.0, 'f')
    return out


def fold(t, kind):
    if isinstance(t, int):
        b = body(t, kind)
        b['other'] = 5.0
        return b
    l, r = fold(t[0], kind), fold(t[1], kind)
    before = snap([l, r])
    res = inertia.combine_bike_rider(l, r)
    if snap([l, r]) != before:
        raise AssertionError('arguments of combine_bike_rider changed')
    return res


def run_combine(case):
    o = Outcome()
    for perm, kind in case['items']:
        want = whole([BODIES[i] for i in perm])
        for t in trees(list(perm)):
            got = fold(t, kind)
            for k, v in want.items():
                o.check(abs(nom(got[k]) - v) <= 1e-10*max(abs(v), 1.0), 'combine:' + k, lambda: '%r %s: %s = %r want %r' % (t, kind, k, got[k], v))
            o.check(nom(got.get('other')) == 5.0, 'combine-other', str(t))
            o.key((str(t), kind))
        # total mass centre of all of them at once
        xs = np.array([[conv(BODIES[i]['xB'], kind) for i in perm], [conv(0.1*i, kind) for i in perm], [conv(BODIES[i]['zB'], kind) for i in perm]])
        ms = np.array([conv(BODIES[i]['mB'], kind) for i in perm])
        y = sum(BODIES[i]['mB']*0.1*i for i in perm)/want['mB']
        for args in ((xs, ms), (xs.tolist(), ms.tolist())):
            before = snap(args)
            m, c = com.total_com(*args)
            o.check(near(np.array([m]), np.array([want['mB']])), 'total-mass', lambda: '%r %r' % (perm, m))
            o.check(near(c, np.array([want['xB'], y, want['zB']])), 'total-com', lambda: '%r %r' % (perm, c))
            o.check(snap(args) == before, 'total-args', str(perm))
    return o


def run_pendulum(case):
    o = Outcome()
    for I, m, g, l, k, kind in case['items']:
        msg = lambda: 'I=%r m=%r g=%r l=%r k=%r %s' % (I, m, g, l, k, kind)
        T = 2*math.pi*math.sqrt((I + m*l**2)/(m*g*l))
        args = [conv(v, kind) for v in (m, g, l, T)]
        before = snap(args)
        J = inertia.compound_pendulum_inertia(*args)
        o.check(abs(nom(J) - I) <= 1e-10*(I + m*l*l), 'compound', msg)
        T = 2*math.pi*math.sqrt(I/k) if I else 0.0
        J = inertia.tor_inertia(conv(k, kind), conv(T, kind))
        o.check(abs(nom(J) - I) <= 1e-11*max(I, 1e-9), 'torsion', msg)
        if I:
            kk = inertia.torsional_pendulum_stiffness(conv(I, kind), conv(T, kind))
            o.check(abs(nom(kk) - k) <= 1e-11*k, 'stiffness', msg)
            back = inertia.tor_inertia(kk, conv(2*T, kind))
            o.check(abs(nom(back) - 4*I) <= 1e-11*I*4, 'torsion-stiffness', msg)
        o.check(snap(args) == before, 'pendulum-args', msg)
        o.key((I, m, g, l, k, kind))
    for l, m, ro, ri, kind in case['tubes']:
        msg = lambda: 'l=%r m=%r ro=%r ri=%r %s' % (l, m, ro, ri, kind)
        Ix, Iy, Iz = inertia.tube_inertia(*[conv(v, kind) for v in (l, m, ro, ri)])
        o.check(abs(nom(Ix) - m*(ro*ro + ri*ri)/2) <= 1e-12*max(m, 1), 'tube-axis', msg)
        o.check(abs(nom(Iy) - m*(3*(ro*ro + ri*ri) + l*l)/12) <= 1e-12*max(m, 1), 'tube-normal', msg)
        o.check(abs(nom(Iy) - nom(Iz)) <= 1e-13*max(m, 1), 'tube-symmetric', msg)
        if 0 < ri < ro:
            # the tube is the solid rod less its bore
            rho = m/(ro*ro - ri*ri)
            A, B = inertia.tube_inertia(l, rho*ro*ro, ro, 0.0), inertia.tube_inertia(l, rho*ri*ri, ri, 0.0)
            o.check(near([nom(Ix), nom(Iy)], [A[0] - B[0], A[1] - B[1]], scale=A[0] + A[1]), 'tube-bore', msg)
    return o


BETAS = [-1.2, -0.4, 0.1, 0.55, 1.0, 1.45, 2.6]
PLANE = [(2.0, 0.0, 1.0), (2.0, -0.7, 1.0), (0.05, 0.02, 0.9), (1.0, 0.0, 1.0), (1e-3, 2e-4, 3e-3)]


def run_components(case):
    o = Outcome()
    for sub, tens, kind in case['items']:
        xx, xz, zz = tens
        bs = [BETAS[i] for i in sub]
        jay = [xx*math.cos(b)**2 - 2*xz*math.sin(b)*math.cos(b) + zz*math.sin(b)**2 for b in bs]
        for r in range(len(bs)):
            beta, jj = conv(bs[r:] + bs[:r], kind), conv(jay[r:] + jay[:r], kind)
            before = snap([beta, jj])
            I = inertia.inertia_components(jj, beta)
            msg = lambda: '%r %r %s -> %r' % (bs, tens, kind, I)
            o.check(near(np.asarray(I), np.array(tens), scale=max(abs(x) for x in tens), tol=1e-8), 'components', msg)
            o.check(snap([beta, jj]) == before, 'components-args', msg)
            if kind == 'f':
                I2 = inertia.inertia_components(list(jj), list(beta))
                o.check(near(np.asarray(I2), np.asarray(I), tol=1e-10), 'components-list', msg)
        o.key((tuple(sub), tens, kind))
    return o


def run_parts(case):
    o = Outcome()
    par = {}
    for i, part in enumerate('BHGSFRD'):
        for j, e in enumerate(('xx', 'yy', 'zz', 'xz')):
            if part in 'FRD' and e in ('zz', 'xz'):
                if case['extra'] and e == 'zz':
                    par['I' + part + e] = 77.0
                continue
            par['I' + part + e] = 1.0 + i + 0.1*j
    for part in 'BHGSFRD':
        names = ['I' + part + e for e in (('xx', 'yy') if part in 'FRD' else ('xx', 'yy', 'zz', 'xz'))]
        for mask in itertools.product((False, True), repeat=len(names)):
            p = dict(par)
            for n, u in zip(names, mask):
                if u:
                    p[n] = ufloat(par[n], 0.01)
            before = snap(p)
            I = inertia.part_inertia_tensor(p, part)
            msg = lambda: '%s %r -> %r' % (part, mask, I)
            if part in 'FRD':
                want = refs.tensor(par['I' + part + 'xx'], 0.0, par['I' + part + 'yy'], par['I' + part + 'xx'])
            else:
                want = refs.tensor(*[par['I' + part + e] for e in ('xx', 'xz', 'yy', 'zz')])
            o.check(near(I, want), 'part', msg)
            o.check(snap(p) == before, 'part-args', msg)
            for n, u in zip(names, mask):
                i, j = {'xx': (0, 0), 'yy': (1, 1), 'zz': (2, 2), 'xz': (0, 2)}[n[2:]]
                o.check((sd(I[i, j]) > 0) == u and (sd(I[j, i]) > 0) == u, 'part-deviation', msg)
            o.key((part, mask))
    return o


def run(case):
    return globals()['run_' + case['kind']](case)


CHUNK = 1


def cases(tier):
    deep = tier != 'quick'
    v = [-0.7, 0.0, 0.3] if not deep else [-2.0, -0.7, 0.0, 0.3, 1.0]
    items = [(it, m, list(d), k) for it in range(len(TENSORS)) for m in MASSES for d in itertools.product(v, repeat=3)
             for k in KINDS if k == 'f' or deep or (sum(x != 0 for x in d) != 1)]
    for b in chunks(items, 400):
        yield {'kind': 'shift', 'items': b}
    n = 19 if not deep else 49
    angs = [-math.pi + 2*math.pi*i/(n - 1) for i in range(n)] + [math.pi/10, 1e-8]
    items = [(it, a, b, 'f') for it in range(len(TENSORS)) for a in angs for b in angs]
    items += [(it, a, b, k) for it in range(len(TENSORS)) for a in angs for b in (0.3, -2.0) for k in ('u', 'int')]
    for b in chunks(items, 600):
        yield {'kind': 'rotate', 'items': b}
    items = [(it, a, ax) for it in range(len(TENSORS + INDEFINITE)) for a in angs for ax in 'xyz']
    for b in chunks(items, 600):
        yield {'kind': 'principal', 'items': b}
    items = [(list(p), k) for n in (2, 3, 4) for p in itertools.permutations(range(4), n) for k in ('f', 'u', 'mix')]
    for b in chunks(items, 30):
        yield {'kind': 'combine', 'items': b}
    grid = list(itertools.product([0.0, 0.01, 1.0, 12.0], [0.5, 2.0, 90.0], [9.81, 1.62], [0.05, 0.3, 1.0], [0.5, 5.01, 30.0], KINDS))
    tubes = list(itertools.product([0.0, 0.5, 2.0], [0.0, 1.0, 4.5], [0.015, 1.0], [0.0, 0.01, 0.014], KINDS))
    for b in chunks(grid, 200):
        yield {'kind': 'pendulum', 'items': b, 'tubes': tubes}
    subs = [list(s) for n in (3, 4, 5, 6, 7) for s in itertools.combinations(range(len(BETAS)), n)]
    items = [(s, t, k) for s in subs for t in PLANE for k in ('f', 'u') if k == 'f' or deep or len(s) <= 4]
    for b in chunks(items, 40):
        yield {'kind': 'components', 'items': b}
    for extra in (False, True):
        yield {'kind': 'parts', 'extra': extra}
