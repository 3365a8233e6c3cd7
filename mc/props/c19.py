"""C19: bicycle geometry relations agree with each other and with plane geometry.

For every point of a grid of plane figures (wheel radii, wheelbase, trail,
tilt, reference points, lines, links, vectors) the measured quantities are
constructed independently with plain vector geometry and every geometry
function must return the figure's own values, for every number type.
"""
import itertools
import math

import numpy as np
from uncertainties import ufloat

from mc.bikes import nom
from mc.engine import Outcome, chunks, deviations, snap

from bicycleparameters import bicycle, com, geometry

ID = 'C19'
LEVEL = 'exploration'
TECHNIQUE = ('exhaustive enumeration of a finite grid of plane figures x number types; every geometry function and every composition of them against '
             'independent vector geometry')
LEVEL_NOTE = ('5 x 4 x 5 x 9 x 4 (thorough: twice as fine) bicycles with both ways of measuring them; all lines/points/links/vectors from menus including '
              'degenerate positions; all subsets and orders of up to 5 concurrent lines.')
RULE = 'one evaluation = one relation checked for one figure and number type'
ASSUMPTIONS = ['the steer axis is not horizontal', 'the distance between the offset lines along the steer axis is measured as a positive length']


def conv(x, kind):
    if isinstance(x, dict):
        return {k: conv(v, kind) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(conv(v, kind) for v in x)
    if kind == 'u':
        return ufloat(x, 0.003*abs(x) + 1e-4)
    return float(x)


def ok(got, want, tol=1e-10, scale=1.0):
    try:
        got = np.asarray(nom(np.asarray(got)), dtype=float).ravel()
    except (TypeError, ValueError):
        return False
    want = np.asarray(want, dtype=float).ravel()
    return got.shape == want.shape and bool(np.all(np.abs(got - want) <= tol*max(scale, 1e-12)))


class Figure(object):
    """the side view of a bicycle: x forward, z down"""

    def __init__(self, rR, rF, w, lam, c):
        self.rR, self.rF, self.w, self.lam, self.c = rR, rF, w, lam, c
        self.up = np.array([-math.sin(lam), -math.cos(lam)])       # along the steer axis, upwards
        self.fwd = np.array([math.cos(lam), -math.sin(lam)])       # perpendicular to it, forwards
        self.ground = np.array([w + c, 0.0])
        self.rear, self.front = np.array([0.0, -rR]), np.array([w, -rF])

    def off(self, p):
        """signed distance of a point in front of the steer axis"""
        return float(np.dot(np.asarray(p) - self.ground, self.fwd))

    def foot(self, p):
        return np.asarray(p) - self.off(p)*self.fwd


def run_bike(case):
    o = Outcome()
    for rR, rF, w, lam, c, ins, kind in case['items']:
        F = Figure(rR, rF, w, lam, c)
        a, b = -F.off(F.rear), F.off(F.front)
        s = float(np.dot(F.foot(F.rear) - F.foot(F.front), F.up))
        how = lambda: 'rR=%r rF=%r w=%r lam=%r c=%r ins=%r %s' % (rR, rF, w, lam, c, ins, kind)
        # steer axis tilt from the offsets
        if a + b > 0.05:
            args = [conv(v, kind) for v in (rF, rR, a, b, s)]
            got = bicycle.lambda_from_abc(*args)
            o.check(ok([got], [lam]), 'tilt', lambda: how() + ' %r' % got)
        args = [conv(v, kind) for v in (rF, lam, b)]
        before = snap(args)
        got = bicycle.trail(*args)
        o.check(ok(got, [c, c*math.cos(lam)]), 'trail', lambda: how() + ' %r' % (got,))
        o.check(snap(args) == before, 'trail-args', how)
        # raw table measurements
        h2, h3, h5, d1, d2, d3, d4, h6, d5, d6 = ins
        mp = {'nF': 10.0, 'nR': 12.0, 'dF': rF*2*math.pi*10, 'dR': rR*2*math.pi*12}
        if s > 1e-3:
            h1, h4 = a - h2 + h3 - d1/2 + d2/2, b + d3/2 + h5 - d4/2
            d_ = math.hypot(s, a - b) - (d2 + d3)/2
            hh, dd = conv((h1, h2, h3, h4, h5), kind), conv((d1, d2, d3, d4, d_), kind)
            got = geometry.calculate_abc_geometry(hh, dd)
            o.check(ok(got, [a, b, s], tol=1e-9/min(1, s)), 'abc', lambda: how() + ' %r want %r' % (got, (a, b, s)))
            if a + b > 0.05:
                m = conv(dict(mp, h1=h1, h2=h2, h3=h3, h4=h4, h5=h5, d1=d1, d2=d2, d3=d3, d4=d4, d=d_, xcl=0.3, zcl=-0.7), kind)
                before = snap(m)
                p = geometry.calculate_benchmark_geometry(m, {'other': 1.0})
                o.check(ok([p[k] for k in ('rF', 'rR', 'w', 'lam', 'c', 'xcl', 'zcl', 'other')], [rF, rR, w, lam, c, 0.3, -0.7, 1.0], tol=1e-8/min(1, s)), 'benchmark-abc',
                        lambda: how() + ' %r' % p)
                o.check(snap(m) == before, 'benchmark-args', how)
        m = conv(dict(mp, w=w, gamma=90 - math.degrees(lam), f=b), kind)
        p = geometry.calculate_benchmark_geometry(m, {})
        o.check(ok([p[k] for k in ('rF', 'rR', 'w', 'lam', 'c')], [rF, rR, w, lam, c]) and set(p) == {'rF', 'rR', 'w', 'lam', 'c'}, 'benchmark-w', lambda: how() + ' %r' % p)
        # the offsets recomputed from the result are the measured ones
        # handlebar reference point
        for l1, l2 in ((0.07, 0.6), (-0.05, 0.5), (0.0, 0.7), (0.12, 0.2)):
            h7 = l1 + h6 - d5/2 + d6/2
            l = math.hypot(l1, l2) + d5/2 + d6/2
            got = geometry.calculate_l1_l2(*[conv(v, kind) for v in (h6, h7, d5, d6, l)])
            o.check(ok(got, [l1, l2]), 'l1-l2', lambda: how() + ' %r %r' % ((l1, l2), got))
            ref = F.front + l2*F.up + l1*F.fwd
            u1, u2 = geometry.fwheel_to_handlebar_ref(conv(lam, kind), conv(l1, kind), conv(l2, kind))
            o.check(ok([u1, u2], [w - ref[0], -rF - ref[1]]), 'handlebar-ref', lambda: how() + ' %r %r' % (u1, u2))
            d = geometry.distance_to_steer_axis(*([conv(v, kind) for v in (w, c, lam)] + [np.array([conv(ref[0], kind), 0., conv(ref[1], kind)])]))
            if abs(b + l1) > 1e-3 or kind == 'f':
                o.check(ok([d], [abs(b + l1)], tol=1e-9), 'axis-distance-ref', lambda: how() + ' %r want %r' % (d, b + l1))
        for q in ([0.0, 0.0], [0.8, -0.9], [1.5, -0.2], list(F.rear), list(F.front)):
            if kind == 'u' and abs(F.off(q)) < 1e-3:
                continue
            pt = np.array([conv(q[0], kind), 0., conv(q[1], kind)])
            before = snap(pt)
            d = geometry.distance_to_steer_axis(conv(w, kind), conv(c, kind), conv(lam, kind), pt)
            o.check(ok([d], [abs(F.off(q))], tol=1e-9), 'axis-distance', lambda: how() + ' %r %r want %r' % (q, d, F.off(q)))
            o.check(snap(pt) == before, 'axis-distance-args', how)
        if kind == 'f':
            par = {'rR': rR, 'rF': rF, 'w': w, 'lam': lam, 'c': c}
            before = snap(par)
            x, z = geometry.fundamental_geometry_plot_data(par)
            pts = [F.rear, F.foot(F.rear), F.foot(F.front), F.front]
            o.check(ok(x, [v[0] for v in pts]) and ok(z, [v[1] for v in pts]), 'frame-points', lambda: how() + ' %r %r' % (x, z))
            o.check(snap(par) == before, 'frame-points-args', how)
        o.key((rR, rF, w, lam, c, kind))
    return o


COORD = [-1.0, 0.0, 0.5, 2.0]


def run_lines(case):
    o = Outcome()
    for p0, p1, p2, kind in case['items']:
        A, B, C = (np.array(v, dtype=float) for v in (p0, p1, p2))
        u = (C - B)/np.linalg.norm(C - B)
        want = float(np.linalg.norm((A - B) - np.dot(A - B, u)*u))
        if kind == 'u' and want < 1e-6:
            continue
        a = np.array([conv(v, kind) for v in p0])
        pts = np.array([[conv(x, kind), conv(y, kind)] for x, y in zip(p1, p2)])
        before = snap([a, pts])
        got = geometry.point_to_line_distance(a, pts)
        o.check(ok([got], [want], tol=1e-9 if want > 1e-2 else 1e-12), 'point-line', lambda: '%r %r %r %s -> %r want %r' % (p0, p1, p2, kind, got, want))
        o.check(snap([a, pts]) == before, 'point-line-args', str(p0))
        o.key((tuple(p0), tuple(p1), tuple(p2)))
    return o


SLOPES = [-1e4, -250.0, -1e-5, 120.0, 3e3, -20.0, -3.0, -1.0, -0.2, 0.0, 0.4, 1.0, 2.5, 50.0]


def run_project(case):
    o = Outcome()
    for m, b, px, py, kind in case['items']:
        line, pt = (conv(m, kind), conv(b, kind)), (conv(px, kind), conv(py, kind))
        x, y = geometry.project_point_on_line(line, pt)
        msg = lambda: '%r %r %s -> %r %r' % ((m, b), (px, py), kind, x, y)
        t = (px + m*(py - b))/(1 + m*m)
        o.check(ok([x, y], [t, m*t + b], tol=1e-10, scale=max(1, abs(m*t + b))), 'project', msg)
        x2, y2 = geometry.project_point_on_line(line, (x, y))
        o.check(ok([x2, y2], [t, m*t + b], tol=1e-9, scale=max(1, abs(m*t + b), m*m)), 'project-twice', msg)
        o.key((m, b, px, py))
    return o


def run_concurrent(case):
    o = Outcome()
    for sub, pt, kind in case['items']:
        sl = [SLOPES[i] for i in sub]
        ic = [pt[1] - m*pt[0] for m in sl]
        s, i = conv(sl, kind), conv(ic, kind)
        before = snap([s, i])
        got = com.center_of_mass(s, i)
        o.check(ok(got, pt, tol=1e-8, scale=1 + max(abs(v) for v in ic)), 'concurrent', lambda: '%r %r %s -> %r' % (sl, pt, kind, got))
        o.check(snap([s, i]) == before, 'concurrent-args', str(sl))
        # lines that do not meet in one point: the mean of the intersections
        ic2 = [v + 0.01*(k + 1)**2 for k, v in enumerate(ic)]
        xs = [[(ic2[q] - ic2[p])/(sl[p] - sl[q]), sl[p]*(ic2[q] - ic2[p])/(sl[p] - sl[q]) + ic2[p]] for p, q in itertools.combinations(range(len(sl)), 2)]
        got2 = com.center_of_mass(np.array(conv(sl, kind)), np.array(conv(ic2, kind)))
        w = np.mean(xs, axis=0)
        o.check(ok(got2, w, tol=1e-8, scale=1 + max(abs(v) for v in ic2)), 'intersections', lambda: '%r %r -> %r want %r' % (sl, ic2, got2, w))
        o.key((tuple(sub), tuple(pt), kind))
    return o


def run_com_line(case):
    """the line of a hanging part, in bicycle axes, passes below the pendulum axis"""
    o = Outcome()
    for part, alpha, lam, pt, kind in case['items']:
        par = {'rR': 0.34, 'rF': 0.36, 'w': 1.05, 'lam': lam}
        l1, l2 = 0.06, 0.55
        beta = lam - math.radians(alpha)
        if abs(math.cos(beta)) < 0.05:
            continue
        F = Figure(par['rR'], par['rF'], par['w'], lam, 0.05)
        ref = {'B': F.rear, 'S': F.front, 'H': F.front, 'G': F.front + l2*F.up + l1*F.fwd}[part]
        # horizontal distance from the pendulum axis (through the mass centre) to the reference point while hanging
        rel = np.asarray(pt) - ref
        m = -math.tan(beta)
        # the line is z = m x + b through pt; a is the signed distance of the reference point from it
        bb = pt[1] - m*pt[0]
        a = (ref[1] - (m*ref[0] + bb))*math.cos(beta)
        args = [conv(v, kind) for v in (alpha, a)] + [conv(par, kind), part, conv(l1, kind), conv(l2, kind)]
        before = snap(args)
        got = com.com_line(*args)
        o.check(ok(got, [m, bb, beta], tol=1e-9, scale=max(1, abs(m))), 'com-line:' + part, lambda: '%s alpha=%r lam=%r %r -> %r want %r' % (part, alpha, lam, pt, got, (m, bb, beta)))
        o.check(snap(args) == before, 'com-line-args', part)
        o.key((part, alpha, lam, tuple(pt), kind))
    return o


def run_links(case):
    o = Outcome()
    for L1, L2, D in case['items']:
        t1, t2 = geometry.calc_two_link_angles(L1, L2, D)
        msg = lambda: '%r %r %r -> %r %r' % (L1, L2, D, t1, t2)
        o.check(t1 >= 0 and t2 >= 0 and t2 <= 2*math.pi, 'links-positive', msg)
        end = [L1*math.cos(t1) + L2*math.cos(t1 - t2), L1*math.sin(t1) + L2*math.sin(t1 - t2)]
        o.check(ok(end, [D, 0.0], tol=1e-7), 'links-end', msg)
        o.key((L1, L2, D))
    return o


def run_vectors(case):
    o = Outcome()
    for v1, v2 in case['items']:
        a, b = np.array(v1, dtype=float), np.array(v2, dtype=float)
        msg = lambda: '%r %r' % (v1, v2)
        want = math.atan2(np.linalg.norm(np.cross(a, b)), np.dot(a, b))
        for sa, sb in (((3, 1), (3, 1)), ((3,), (3,)), ((3, 1), (3,))):
            x, y = a.reshape(sa), b.reshape(sb)
            got = geometry.vec_angle(x, y)
            o.check(np.size(got) == 1 and abs(float(np.ravel(got)[0]) - want) < 3e-8, 'vec-angle', lambda: msg() + ' %r want %r' % (got, want))
            back = geometry.vec_angle(5.0*y, 0.1*x)
            o.check(abs(float(np.ravel(back)[0]) - want) < 3e-8, 'vec-angle-symmetric', msg)
            o.check(bool(np.all(x.ravel() == a)) and bool(np.all(y.ravel() == b)), 'vec-args', msg)
        x = a.reshape(3, 1)
        u = b/np.linalg.norm(b)
        wantp = a - np.dot(a, u)*u
        p = geometry.vec_project(x, b)
        o.check(np.shape(p) == (3, 1) and ok(p, wantp), 'vec-project', lambda: msg() + ' %r want %r' % (p, wantp))
        o.check(ok(geometry.vec_project(p, b), wantp), 'vec-project-twice', msg)
        for y in (b.copy(), b.reshape(3, 1).copy()):
            o.check(ok(geometry.vec_project(x, y), wantp), 'vec-project-direction', msg)
            o.check(bool(np.all(y.ravel() == np.array(v2, dtype=float))) and bool(np.all(b == np.array(v2, dtype=float))), 'vec-project-args', msg)
        o.check(bool(np.all(x.ravel() == a)), 'vec-project-args', msg)
        for i in range(3):
            w = a.copy()
            w[i] = 0.0
            for d in (i, np.int64(i)):
                o.check(ok(geometry.vec_project(x, d), w), 'vec-project-axis', lambda: msg() + ' %d' % i)
            o.check(ok(geometry.vec_project(x, 2.0*np.eye(3)[i]), w), 'vec-project-axis-vector', lambda: msg() + ' %d' % i)
        o.key((tuple(v1), tuple(v2)))
    return o


def run_cartesian(case):
    o = Outcome()
    menus = [[1], [1, 2, 3], [4, 5], [0, 7, -1, 2], [3, 3]]
    for n in (1, 2, 3, 4):
        for arrs in itertools.product(menus, repeat=n):
            arrs = [list(a) for a in arrs]
            got = com.cartesian([list(a) for a in arrs])
            want = [list(t) for t in itertools.product(*arrs)]
            o.check(np.asarray(got).tolist() == want, 'cartesian', lambda: '%r -> %r' % (arrs, got))
            o.key(str(arrs))
    return o


def run(case):
    return globals()['run_' + case['kind']](case)


CHUNK = 1


def cases(tier):
    deep = tier != 'quick'
    ins = [(0.1, 0.067, 0.083, 0.037, 0.0098, 0.01004, 0.0285, 0.1, 0.02, 0.05), (0.0, 0.0, 0.0, 0.05, 0.03, 0.02, 0.01, 0.0, 0.0, 0.0)]
    rR = [0.15, 0.3, 0.341, 0.45] if deep else [0.2, 0.341, 0.45]
    rF = [0.15, 0.3, 0.341, 0.45] if deep else [0.2, 0.341, 0.45]
    W = [0.4, 0.7, 1.0, 1.3, 2.0] if deep else [0.6, 1.02, 1.6]
    L = [-0.3, -0.1, 0.0, 0.05, 0.2, 0.31, 0.4, 0.6, 0.9, 1.2] if deep else [-0.1, 0.0, 0.05, 0.314, 0.5, 1.0]
    C = [-0.2, -0.05, 0.0, 0.04, 0.08, 0.25] if deep else [-0.1, 0.0, 0.06, 0.2]
    items = [(a, b, w, l, c, ins[i], k) for a in rR for b in rF for w in W for l in L for c in C for i, k in ((0, 'f'), (1, 'f'), (0, 'u'))]
    for b in chunks(items, 150):
        yield {'kind': 'bike', 'items': [list(x) for x in b]}
    pts = list(itertools.product(COORD if deep else COORD[:3], repeat=3))
    some = pts[::5] + [(0.5, 0.0, -1.0), (2.0, 0.3, 0.7)]
    items = [(p, q, r, k) for p in pts for q in some for r in some if q != r for k in ('f', 'u') if k == 'f' or deep or p[1] == 0.0]
    # points close to the given points of the line
    near = [(1e-3, 0.0, 0.0), (0.0, 2e-4, -3e-4), (-5e-5, 1e-5, 2e-5), (1e-6, -2e-6, 1e-6)]
    items += [(tuple(x + y for x, y in zip(e, n)), q, r, 'f') for q in pts[::3] for r in some if q != r for e in (q, r) for n in near]
    for b in chunks(items, 1000):
        yield {'kind': 'lines', 'items': b}
    items = [(m, b, x, y, k) for m in SLOPES for b in (-2.0, 0.0, 0.7) for x in COORD for y in COORD for k in ('f', 'u')]
    for b in chunks(items, 500):
        yield {'kind': 'project', 'items': b}
    items = [(s, p, k) for n in (2, 3, 4, 5) for s in (itertools.permutations(range(9), n) if n < 4 else itertools.combinations(range(9), n))
             for p in ((0.3, -0.8), (0.0, 0.0), (-1.0, 2.0)) for k in ('f', 'u') if deep or k == 'f' or (n == 3 and p[0] == 0.3 and s[0] < s[1] < s[2])]
    for b in chunks(items, 100):
        yield {'kind': 'concurrent', 'items': b}
    items = [(part, al, lam, p, k) for part in 'BSHG' for al in range(0, 360, 15) for lam in (0.0, 0.3, 0.7) for p in ((0.3, -0.8), (0.9, -0.5), (0.0, 0.0)) for k in ('f', 'u')]
    for b in chunks(items, 400):
        yield {'kind': 'com_line', 'items': b}
    v = [0.2, 0.35, 0.5, 0.77, 1.0, 1.3] + ([0.1, 0.41, 0.6, 0.9, 1.7, 2.5] if deep else [])
    items = [(a, b, d) for a in v for b in v for d in v + [0.05, (a + b)*(1 - 1e-6), abs(a - b)*(1 + 1e-6)] if abs(a - b) + 1e-8 < d < a + b - 1e-8]  # exactly straight links are decided by rounding
    for b in chunks(items, 500):
        yield {'kind': 'links', 'items': b}
    vec = [t for t in itertools.product([-1.0, 0.0, 0.5], repeat=3) if any(t)] + [(3.0, 1e-3, 0.0), (1e-4, 2e-4, -1e-4)]
    items = [(a, b) for a in vec for b in vec]
    for b in chunks(items, 200):
        yield {'kind': 'vectors', 'items': b}
    yield {'kind': 'cartesian'}
