"""C24: a configured rider sits on the bicycle it is configured for.

Every bicycle seat/handlebar/wheel geometry within a bounded number of
deviations is combined with every rider and trunk lean; the resulting figure is
measured with independent plane geometry.  A rider who cannot reach is outside
the domain of the seating relations (own reachability criterion), everything
else is judged always.
"""
import itertools
import math
import os
import re
import shutil

import numpy as np

import bicycleparameters as bp
from bicycleparameters import rider as rd
from mc import refs
from mc.bikes import DATA, Tree, nom, unc, write_par
from mc.engine import Outcome, chunks, deviations, raises, snap
from mc.props.c15 import equal, own

ID = 'C24'
LEVEL = 'exploration'
TECHNIQUE = ('exhaustive enumeration of all bicycle geometries within a bounded number of deviations x riders x trunk leans, real configuration code against an '
             'independent plane geometry and rigid body oracle, plus all sequences of configurations up to a depth (no dependence on history)')
LEVEL_NOTE = ('All geometries within 2 (thorough 3) deviations over 11 measurements (2-3 values each) for every rider and 3 (thorough 6) leans; all shipped '
              'bicycle x rider combinations; all sequences of 3 (thorough 4) configurations over 6 rider/bicycle pairs; all axis mappings within 2 deviations.')
RULE = 'one configuration = one rider computed for one bicycle; seating, symmetry, mass distribution, combination and unchanged inputs judged'
ASSUMPTIONS = ['the figure itself (segment masses, joint positions) is that of the yeadon package', 'seating is judged for riders who can reach the bottom bracket and the grips',
               'foot = heel of the figure, hand = base of its thumb, the points the measurements of the package refer to']

M0 = {'hbb': .295, 'lcs': .46, 'lsp': .24, 'lst': .53, 'lamst': 1.1956, 'whb': .58, 'LhbR': .9213, 'LhbF': .893}
B0 = {'rR': .341, 'rF': .3435, 'w': 1.121}
MENU = {'hbb': [.2, .34, .4], 'lcs': [.38, .6], 'lsp': [.1, .18, .28, .4], 'lst': [.45, .6, .3], 'lamst': [1.0, 1.3, 1.5], 'whb': [.3, .45, .8], 'LhbR': [.85, 1.0, 1.1],
        'LhbF': [.8, 1.0], 'rR': [.25, .4], 'rF': [.25, .4], 'w': [1.0, 1.3]}
RIDERS = ['Jason', 'Luke', 'Tall', 'Asym', 'Mont', 'Chris', 'Aurelia', 'Child']
LEANS = [0.175, 0.45, 0.0, -0.1, 0.3, 0.7]
NAMES = ('somersault tilt twist PTsagittalFlexion PTbending TCspinalTorsion TCsagittalSpinalFlexion CA1extension CA1adduction CA1rotation CB1extension CB1abduction '
         'CB1rotation A1A2extension B1B2extension PJ1extension PJ1adduction PK1extension PK1abduction J1J2flexion K1K2flexion').split()
ROT = np.array([[0., -1., 0.], [-1., 0., 0.], [0., 0., -1.]])


def write_cfg(path, lean):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        f.write(''.join('%s: %r\n' % (n, lean if n == 'somersault' else 0.0) for n in NAMES))


def put_rider(root, name):
    """measurements of a rider, two of them made up from Jason's"""
    dst = os.path.join(root, 'riders', name, 'RawData')
    os.makedirs(dst, exist_ok=True)
    src = {'Tall': 'Jason', 'Asym': 'Jason'}.get(name, name)
    with open(os.path.join(DATA, 'riders', src, 'RawData', src + 'YeadonMeas.txt')) as f:
        text = f.read()

    def change(m):
        k, v = m.group(1), float(m.group(2))
        if name == 'Tall' and k.endswith('L'):
            v *= 1.12
        if name == 'Asym' and k.startswith('La'):
            v *= 1.05
        if name == 'Asym' and k.startswith('Lk'):
            v *= 1.04
        if name == 'Asym' and k == 'Ls4w':
            v *= 0.9
        return '%s: %r' % (k, v)
    if src != name:
        text = re.sub(r'(?m)^(L[a-z]\d[A-Za-z]+)\s*:\s*([0-9.]+)', change, text)
    with open(os.path.join(dst, name + 'YeadonMeas.txt'), 'w') as f:
        f.write(text)
    return os.path.join(root, 'riders', name)


def col(v):
    return np.asarray(v, float).reshape(3)


def to_bike(v, m, b):
    """a point of the figure in the bicycle's axes: x forward, y right, z down from the rear contact; the figure's origin is where the seat tube line ends"""
    D = m['lsp'] + m['lst']
    org = np.array([math.sqrt(m['lcs']**2 - (b['rR'] - m['hbb'])**2) - D*math.cos(m['lamst']), 0.0, -m['hbb'] - D*math.sin(m['lamst'])])
    return org + ROT.dot(col(v))


def reach(m, b, M, lean):
    """margins by which the legs and the arms reach their targets"""
    l1 = M['Lj3L']
    l2 = M['Lj5L'] + M['Lj6L'] - l1
    D = m['lsp'] + m['lst']
    leg = min(D - abs(l1 - l2), l1 + l2 - D)
    h2 = (m['whb']/2)**2
    if m['LhbR']**2 < h2 or m['LhbF']**2 < h2 or abs(b['rR'] - m['hbb']) > m['lcs']:
        return leg, -9.0
    c1, c2 = np.array([0, b['rR']]), np.array([b['w'], b['rF']])
    r1, r2 = math.sqrt(m['LhbR']**2 - h2), math.sqrt(m['LhbF']**2 - h2)
    e = c2 - c1
    L = math.hypot(*e)
    e = e/L
    a = (L*L + r1*r1 - r2*r2)/2/L
    if r1*r1 < a*a:
        return leg, -9.0
    g = c1 + a*e + math.sqrt(r1*r1 - a*a)*np.array([-e[1], e[0]])
    hip = np.array([math.sqrt(m['lcs']**2 - (b['rR'] - m['hbb'])**2) - D*math.cos(m['lamst']), m['hbb'] + D*math.sin(m['lamst'])])
    sh = hip + M['Ls4L']*np.array([math.sin(lean), math.cos(lean)])
    dist = math.sqrt(np.sum((g - sh)**2) + (m['whb']/2 - M['Ls4w']/2)**2)
    a1 = M['La2L']
    a2 = M['La4L'] + M['La5L'] - a1
    return leg, min(dist - abs(a1 - a2), a1 + a2 - dist)


def along(seg, d):
    p, e = col(seg.pos), col(seg.end_pos)
    return p + d*(e - p)/np.linalg.norm(e - p)


def judge_figure(o, h, m, b, lean, rp, how):
    M = h.meas
    leg, arm = reach(m, b, M, lean)
    seat = min(leg, arm) > 0.02
    bb = np.array([math.sqrt(m['lcs']**2 - (b['rR'] - m['hbb'])**2), 0, -m['hbb']])
    rear, front = np.array([0, 0, -b['rR']]), np.array([b['w'], 0, -b['rF']])
    out = {}
    for side, leg_, arm_, s in (('left', h.J2, h.A2, 'ja'), ('right', h.K2, h.B2, 'kb')):
        foot = to_bike(along(leg_, M['L%s5L' % s[0]] + M['L%s6L' % s[0]] - M['L%s3L' % s[0]]), m, b)
        hand = to_bike(along(arm_, M['L%s4L' % s[1]] + M['L%s5L' % s[1]] - M['L%s2L' % s[1]]), m, b)
        out[side] = [foot, hand, to_bike(leg_.pos, m, b), to_bike(arm_.pos, m, b), to_bike(leg_.end_pos, m, b), to_bike(arm_.end_pos, m, b)]
        if seat:
            o.check(np.abs((foot - bb)[[0, 2]]).max() < 1e-5, 'feet', lambda: '%s: %s foot at %r, bottom bracket %r' % (how, side, foot, bb))
            ok = (abs(np.linalg.norm(hand - front) - m['LhbF']) < 1e-5 and abs(np.linalg.norm(hand - rear) - m['LhbR']) < 1e-5
                  and abs(abs(hand[1]) - m['whb']/2) < 1e-5 and hand[2] < min(rear[2], front[2]))
            o.check(ok, 'hands', lambda: '%s: %s hand at %r' % (how, side, hand))
    # the left limbs are on the left: y points to the right
    o.check(out['left'][0][1] < 0 < out['right'][0][1] and to_bike(h.A1.pos, m, b)[1] < 0 < to_bike(h.B1.pos, m, b)[1], 'sides', lambda: '%s %r' % (how, out))
    if seat:
        o.check(out['left'][1][1] < 0 < out['right'][1][1], 'sides', lambda: '%s %r' % (how, out))
    flip = np.array([1, -1, 1])
    for p, q in zip(out['left'], out['right']):
        o.check(np.allclose(p*flip, q, rtol=0, atol=1e-9), 'mirror', lambda: '%s %r %r' % (how, p, q))
    # hip joints at the saddle, trunk leans forward as configured
    org = to_bike(np.zeros(3), m, b)
    hips = (to_bike(h.J1.pos, m, b) + to_bike(h.K1.pos, m, b))/2
    o.check(np.allclose(hips, org, atol=1e-9), 'hips', lambda: '%s %r %r' % (how, hips, org))
    sh = (to_bike(h.A1.pos, m, b) + to_bike(h.B1.pos, m, b))/2
    want = org + M['Ls4L']*np.array([math.sin(lean), 0, -math.cos(lean)])
    o.check(np.allclose(sh, want, atol=1e-9), 'trunk', lambda: '%s %r %r' % (how, sh, want))
    # mass distribution from the segments
    mass = sum(float(s.mass) for s in h.segments)
    com = sum(float(s.mass)*to_bike(s.center_of_mass, m, b) for s in h.segments)/mass
    I = np.zeros((3, 3))
    for s in h.segments:
        d = to_bike(s.center_of_mass, m, b) - com
        I = I + ROT.dot(np.asarray(s.inertia, float)).dot(ROT.T) + float(s.mass)*(d.dot(d)*np.eye(3) - np.outer(d, d))
    got = {k: float(nom(rp[k])) for k in ('mB', 'xB', 'zB', 'IBxx', 'IByy', 'IBzz', 'IBxz')}
    want = {'mB': mass, 'xB': com[0], 'zB': com[2], 'IBxx': I[0, 0], 'IByy': I[1, 1], 'IBzz': I[2, 2], 'IBxz': I[0, 2]}
    for k in want:
        o.check(abs(got[k] - want[k]) < 1e-7*(1 + abs(want[k])), 'rider-' + k, lambda: '%s %s %r != %r' % (how, k, got[k], want[k]))
    o.check(abs(com[1]) < 1e-9 and abs(float(nom(rp.get('yB', 0.0)))) < 1e-9, 'rider-yB', lambda: '%s %r' % (how, rp))
    if seat:
        o.key((how,))
    else:
        o.trivial += 1
    return seat


def expected_total(bare, rp):
    bare, rp = nom(bare), nom(rp)
    m1, m2 = bare['mB'], rp['mB']
    c1 = np.array([bare['xB'], bare.get('yB', 0.0), bare['zB']])
    c2 = np.array([rp['xB'], rp.get('yB', 0.0), rp['zB']])
    c = (m1*c1 + m2*c2)/(m1 + m2)
    I = np.zeros((3, 3))
    for mm, cc, p in ((m1, c1, bare), (m2, c2, rp)):
        d = cc - c
        I = I + refs.tensor(p['IBxx'], p['IBxz'], p['IByy'], p['IBzz']) + mm*(d.dot(d)*np.eye(3) - np.outer(d, d))
    return {'mB': m1 + m2, 'xB': c[0], 'zB': c[2], 'IBxx': I[0, 0], 'IByy': I[1, 1], 'IBzz': I[2, 2], 'IBxz': I[0, 2]}


def judge_total(o, total, bare, rp, how):
    want = expected_total(bare, rp)
    t = nom(total)
    for k, v in want.items():
        o.check(abs(t[k] - v) < 1e-7*(1 + abs(v)), 'total-' + k, lambda: '%s %s %r != %r' % (how, k, t[k], v))
    for k, v in nom(bare).items():
        if k not in want and k != 'yB':
            o.check(t.get(k) == v, 'total-other', lambda: '%s %s %r %r' % (how, k, t.get(k), v))


def run_sit(case):
    o = Outcome()
    name = case['rider']
    with Tree() as t:
        path = put_rider(t.root, name)
        for lean in case['leans']:
            bike = 'Synth%d' % (round(lean*1000) % 10000)
            write_cfg(os.path.join(path, 'RawData', name + bike + 'YeadonCFG.txt'), lean)
            for dev, kind in case['devs']:
                m = dict(M0)
                b = {k: v for k, v in refs.BENCH.items() if k != 'v'}
                b.update(B0)
                for k, v in dev.items():
                    (m if k in m else b)[k] = v
                mm = unc(m) if kind == 'u' else dict(m)
                bb = unc(b) if kind == 'u' else dict(b)
                before = snap([mm, bb])
                how = '%s lean %r %r %s' % (name, lean, dev, kind)
                rp, h, tot = rd.configure_rider(path, bike, bb, mm, False)
                o.transitions += 1
                o.check(snap([mm, bb]) == before, 'inputs-changed', how)
                judge_figure(o, h, m, b, lean, rp, how)
                judge_total(o, tot, bb, rp, how)
    return o


def run_map(case):
    o = Outcome()
    V = [np.zeros(3), np.array([1., 0, 0]), np.array([0, 1., 0]), np.array([0, 0, 1.]), np.array([-.3, .7, 1.9]), np.array([2., -5., -.1])]
    for dev, kind in case['devs']:
        m, b = dict(M0), dict(B0)
        for k, v in dev.items():
            (m if k in m else b)[k] = v
        mm, bb = (unc(m), unc(b)) if kind == 'u' else (dict(m), dict(b))
        before = snap([mm, bb])
        how = '%r %s' % (dev, kind)
        img = []
        for v in V:
            c = v.reshape(3, 1)
            keep = c.copy()
            r = rd.yeadon_vec_to_bicycle_vec(c, mm, bb)
            o.transitions += 1
            o.check(np.array_equal(c, keep), 'vector-changed', how)
            o.check(np.asarray(r).shape == (3, 1), 'map-shape', lambda: '%s %r' % (how, r))
            img.append(col(nom(r)))
            o.check(np.allclose(img[-1], to_bike(v, m, b), rtol=0, atol=1e-9), 'map-point', lambda: '%s %r -> %r' % (how, v, img[-1]))
        o.check(snap([mm, bb]) == before, 'inputs-changed', how)
        # rigid: distances and orientation
        for i, j in itertools.combinations(range(len(V)), 2):
            o.check(abs(np.linalg.norm(img[i] - img[j]) - np.linalg.norm(V[i] - V[j])) < 1e-9, 'map-distance', how)
        E = np.array([img[k] - img[0] for k in (1, 2, 3)])
        o.check(abs(np.linalg.det(E) - 1) < 1e-9, 'map-orientation', lambda: '%s %r' % (how, E))
        # the origin is on the seat tube line at the saddle
        d = img[0] - np.array([math.sqrt(m['lcs']**2 - (b['rR'] - m['hbb'])**2), 0, -m['hbb']])
        o.check(abs(np.linalg.norm(d) - m['lsp'] - m['lst']) < 1e-9 and abs(math.atan2(-d[2], -d[0]) - m['lamst']) < 1e-9, 'map-origin', how)
        o.key(how)
    return o


def lean_of(path):
    with open(path) as f:
        for line in f:
            if line.startswith('somersault:'):
                return float(line.split(':')[1].split('#')[0])
    raise ValueError(path)


def run_add(case):
    """the public path: load a bicycle, add a rider"""
    import matplotlib.pyplot as plt
    o = Outcome()
    name, bike, recalc = case['rider'], case['bike'], case['recalc']
    with Tree() as t:
        t.copy_bike(bike, par=True)
        path = put_rider(t.root, name)
        cfg = os.path.join(path, 'RawData', name + bike + 'YeadonCFG.txt')
        src = os.path.join(DATA, 'riders', name, 'RawData', name + bike + 'YeadonCFG.txt')
        if case['lean'] is None:
            shutil.copy(src, cfg)
        else:
            write_cfg(cfg, case['lean'])
        b = bp.Bicycle(bike, pathToData=t.root)
        how = '%s on %s lean %r reCalc %r' % (name, bike, case['lean'], recalc)
        bare = own(b.parameters)
        files = t.snapshot()
        err = raises(lambda: b.add_rider('Nobody', reCalc=recalc))
        o.check(err is not None and not b.hasRider and equal(b.parameters, bare), 'unknown-rider', lambda: '%s %r' % (how, err))
        b.add_rider(name, reCalc=recalc)
        o.transitions += 2
        o.check(b.hasRider and b.riderName == name and b.human is not None, 'state', how)
        m, par = nom(bare['Measured']), nom(bare['Benchmark'])
        rp = b.riderPar['Benchmark']
        judge_figure(o, b.human, m, par, lean_of(cfg), rp, how)
        judge_total(o, b.parameters['Benchmark'], bare['Benchmark'], rp, how)
        o.check(equal({k: v for k, v in b.parameters.items() if k != 'Benchmark'}, {k: v for k, v in bare.items() if k != 'Benchmark'}), 'measured-changed', how)
        o.check(t.snapshot() == files, 'files-changed', how)
        # the stick figure of the drawing
        h = b.human
        before = own([b.parameters, b.riderPar])
        fig = b.plot_bicycle_geometry(show=False)
        o.check(equal([b.parameters, b.riderPar], before), 'drawing-changed', how)
        segs = []
        for l in fig.axes[0].lines:
            x, y = np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)
            segs += [np.array([[x[i], y[i]], [x[i + 1], y[i + 1]]]) for i in range(min(len(x) - 1, 40))]
        for what, p, q in (('lower leg', h.K2.end_pos, h.K2.pos), ('upper leg', h.K2.pos, h.K1.pos), ('torso', h.K1.pos, h.B1.pos), ('upper arm', h.B1.pos, h.B2.pos),
                           ('lower arm', h.B2.pos, h.B2.end_pos), ('head', h.B1.pos, h.C.end_pos)):
            e = np.array([to_bike(v, m, par)[[0, 2]]*[1, -1] for v in (p, q)])
            o.check(any(np.allclose(s, e, atol=1e-8) or np.allclose(s, e[::-1], atol=1e-8) for s in segs), 'stick-' + what, lambda: '%s: no line %r' % (how, e))
        top = -to_bike(h.C.end_pos, m, par)[2]
        o.check(fig.axes[0].get_ylim()[1] >= top, 'stick-visible', how)
        plt.close('all')
        o.states += 2
    return o


PAIRS = [('Jason', 0.175, {}), ('Luke', 0.3, {'LhbR': 1.0}), ('Child', 0.15, {'lsp': .1, 'lst': .18, 'w': .6, 'rR': .15, 'rF': .15, 'hbb': .19, 'lcs': .24, 'LhbR': .68, 'LhbF': .61, 'whb': .42}),
         ('Jason', 0.3, {'whb': .45}), ('Luke', 0.0, {'LhbR': 1.0, 'LhbF': .8, 'lsp': .18}), ('Tall', 0.3, {'lst': .6})]


def run_seq(case):
    """the same configuration gives the same rider whatever was computed before in the process"""
    o = Outcome()
    with Tree() as t:
        for n in sorted({p[0] for p in PAIRS}):
            put_rider(t.root, n)
        for i, (n, lean, dev) in enumerate(PAIRS):
            write_cfg(t.path('riders', n, 'RawData', '%sB%dYeadonCFG.txt' % (n, i)), lean)

        def conf(i):
            n, lean, dev = PAIRS[i]
            m = dict(M0)
            b = {k: v for k, v in refs.BENCH.items() if k != 'v'}
            b.update(B0)
            for k, v in dev.items():
                (m if k in m else b)[k] = v
            rp, h, tot = rd.configure_rider(t.path('riders', n), 'B%d' % i, b, m, False)
            return {k: float(v) for k, v in rp.items()}, {k: float(v) for k, v in tot.items()}
        first = {i: conf(i) for i in range(len(PAIRS))}
        for seq in case['seqs']:
            for i in seq:
                got = conf(i)
                o.transitions += 1
                for a, c in zip(got, first[i]):
                    o.check(set(a) == set(c) and all(abs(a[k] - c[k]) <= 1e-9*(1 + abs(c[k])) for k in c), 'history', lambda: '%r at %r: %r != %r' % (seq, i, a, c))
            o.states += len(seq)
    return o


def run(case):
    return {'sit': run_sit, 'map': run_map, 'add': run_add, 'seq': run_seq}[case['kind']](case)


CHUNK = 1
CASE_TIMEOUT = 1500
RAW = ['Browser', 'Browserins', 'Balanceassistv1', 'Rigid', 'Crescendo', 'Yellow', 'Yellowrev', 'Silver', 'Pista', 'Fisher']


def seated(bike):
    return all(k in refs_measured(bike) for k in M0)


_MEAS = {}


def refs_measured(bike):
    if bike not in _MEAS:
        with open(os.path.join(DATA, 'bicycles', bike, 'RawData', bike + 'Measured.txt')) as f:
            _MEAS[bike] = set(l.split('=')[0].strip() for l in f if '=' in l)
    return _MEAS[bike]


def cases(tier):
    deep = tier != 'quick'
    cfgs = os.path.join(DATA, 'riders')
    for bike in RAW:
        if not seated(bike):
            continue
        for name in RIDERS:
            src = os.path.join(cfgs, name, 'RawData', name + bike + 'YeadonCFG.txt')
            for lean in [None] if os.path.exists(src) else ([0.2, 0.5] if deep else [0.35]):
                for rec in (True, False):
                    yield {'kind': 'add', 'rider': name, 'bike': bike, 'lean': lean, 'recalc': rec}
    for block in chunks([(dict(d), k) for d in deviations(MENU, None, 3 if deep else 2) for k in 'fu'], 200):
        yield {'kind': 'map', 'devs': block}
    leans = LEANS if deep else LEANS[:2]
    for name in RIDERS:
        kk = (3 if name in ('Jason', 'Tall') else 2) if deep else (2 if name in ('Jason', 'Tall', 'Asym') else 1)
        for block in chunks([(dict(d), 'u' if len(d) == 1 and i % 4 == 0 else 'f') for i, d in enumerate(deviations(MENU, None, kk))], 30):
            yield {'kind': 'sit', 'rider': name, 'leans': leans, 'devs': block}
    # strongly bent arms
    bent = [({'LhbF': a, 'lamst': c, 'whb': w}, 'f') for a in (0.9, 1.0) for c in (1.0, 1.1) for w in (.45, .58)]
    for name in ('Jason', 'Luke', 'Tall'):
        yield {'kind': 'sit', 'rider': name, 'leans': [0.55, 0.7], 'devs': bent}
    # shorter bicycle for the child
    small = dict(PAIRS[2][2])
    for block in chunks([(dict(small, **d), 'f') for d in deviations({'lsp': [.04, .16], 'LhbR': [.62, .72], 'lamst': [1.1, 1.4], 'whb': [.3, .5], 'w': [.55, .7], 'hbb': [.17, .22]}, None, 2)], 30):
        yield {'kind': 'sit', 'rider': 'Child', 'leans': leans, 'devs': block}
    for block in chunks([list(s) for s in itertools.product(range(len(PAIRS)), repeat=4 if deep else 3)], 40):
        yield {'kind': 'seq', 'seqs': block}
