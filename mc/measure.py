"""Measurements that ideal instruments would take of a known bicycle.

Everything is derived from the physics of the set up: a part hung from a
pendulum with its steer axis at the angle alpha has, in the axes of the
upright bicycle, its vertical axis along u = (cos b, 0, -sin b) with
b = lam - alpha; the mass centre lies on that axis; the period of the
torsional pendulum is that of the moment of inertia about u; the compound
pendulum swings about the reference point of the part.
"""
import math

import numpy as np

# true bicycle, bare; H is composed of S and G when the fork is split
BASE = {'w': 1.12, 'c': 0.068, 'lam': 0.4, 'g': 9.81, 'rR': 0.341, 'rF': 0.344, 'mR': 3.1, 'mF': 2.02, 'mB': 9.86,
        'IRxx': 0.088, 'IRyy': 0.152, 'IFxx': 0.09, 'IFyy': 0.149, 'xB': 0.27, 'zB': -0.54, 'IBxx': 0.53, 'IByy': 1.32, 'IBzz': 0.76, 'IBxz': -0.11,
        'mS': 2.6, 'xS': 0.98, 'zS': -0.56, 'ISxx': 0.11, 'ISyy': 0.12, 'ISzz': 0.02, 'ISxz': 0.03,
        'mG': 1.9, 'xG': 0.74, 'zG': -0.95, 'IGxx': 0.041, 'IGyy': 0.03, 'IGzz': 0.049, 'IGxz': -0.012,
        'mH': 3.22, 'xH': 0.866, 'zH': -0.748, 'IHxx': 0.253, 'IHyy': 0.246, 'IHzz': 0.0956, 'IHxz': -0.0720}
FLY = {'mD': 3.4, 'IDxx': 0.06, 'IDyy': 0.11}
ANG = {'B': [20., 75., 130., 222., 287., 335.], 'H': [35., 60., 95., 185., 305., 335.], 'S': [10., 60., 138., 215., 265., 345.],
       'G': [45., 95., 165., 200., 250., 320.]}
INSTR = {'nF': 10.0, 'nR': 12.0, 'h2': 0.1016, 'h3': 0.067, 'h5': 0.0835, 'd1': 0.037, 'd2': 0.0098, 'd3': 0.01004, 'd4': 0.0285, 'h6': 0.15369, 'd5': 0.01,
         'd6': 0.022, 'l1': -0.012, 'l2': 0.93, 'lF': 0.29, 'lR': 0.28, 'mP': 4.65, 'dP': 0.03, 'lP': 0.8355, 'TtP1': 0.957}


def tens(p, part):
    if part in 'FRD':
        return np.diag([p['I%sxx' % part], p['I%syy' % part], p['I%sxx' % part]])
    return np.array([[p['I%sxx' % part], 0, p['I%sxz' % part]], [0, p['I%syy' % part], 0], [p['I%sxz' % part], 0, p['I%szz' % part]]])


def truth(p, split, fly):
    """the benchmark parameters of that bicycle"""
    keys = ['w', 'c', 'lam', 'g', 'rR', 'rF', 'mR', 'mF', 'mB', 'IRxx', 'IRyy', 'IFxx', 'IFyy', 'xB', 'zB', 'IBxx', 'IByy', 'IBzz', 'IBxz']
    out = {k: p[k] for k in keys}
    parts = 'SG' if split else 'H'
    for q in parts:
        for k in ('m', 'x', 'z'):
            out[k + q] = p[k + q]
        for k in ('xx', 'yy', 'zz', 'xz'):
            out['I%s%s' % (q, k)] = p['I%s%s' % (q, k)]
    if split:
        m = p['mS'] + p['mG']
        x = (p['mS']*p['xS'] + p['mG']*p['xG'])/m
        z = (p['mS']*p['zS'] + p['mG']*p['zG'])/m
        I = np.zeros((3, 3))
        for q in 'SG':
            d = np.array([p['x' + q] - x, 0., p['z' + q] - z])
            I += tens(p, q) + p['m' + q]*(d.dot(d)*np.eye(3) - np.outer(d, d))
        out.update(mH=m, xH=x, zH=z, IHxx=I[0, 0], IHyy=I[1, 1], IHzz=I[2, 2], IHxz=I[0, 2])
    if fly:
        out.update({k: p[k] for k in FLY})
    return out


def handlebar_ref(p, ins):
    """reference point of the handlebar: l1 ahead of and l2 above the front
    wheel centre, across and along the steer axis"""
    s, c = math.sin(p['lam']), math.cos(p['lam'])
    ahead = np.array([c, -s])   # across the axis, forward (x, z)
    up = np.array([-s, -c])     # along the axis, up
    return np.array([p['w'], -p['rF']]) + ins['l1']*ahead + ins['l2']*up


def measure(p, split=False, geometry='abc', angles=None, fly=False, ins=None, seat=False, extra=None):
    """the dictionary of measurements"""
    ins = dict(INSTR, **(ins or {}))
    angles = angles or {}
    s, c = math.sin(p['lam']), math.cos(p['lam'])
    mp = {k: ins[k] for k in ('nF', 'nR', 'lF', 'lR', 'mP', 'dP', 'lP', 'TtP1')}
    mp['dF'] = 2*math.pi*p['rF']*ins['nF']
    mp['dR'] = 2*math.pi*p['rR']*ins['nR']
    fo = p['rF']*s - p['c']*c
    if geometry == 'w':
        mp['w'] = p['w']
        mp['gamma'] = 90.0 - p['lam']*180.0/math.pi
        mp['f'] = fo
    else:
        across = p['w']*c + (p['rF'] - p['rR'])*s
        along = p['w']*s - (p['rF'] - p['rR'])*c
        a, b = across - fo, fo
        for k in ('h2', 'h3', 'h5', 'd1', 'd2', 'd3', 'd4'):
            mp[k] = ins[k]
        mp['h1'] = a - ins['h2'] + ins['h3'] - ins['d1']/2 + ins['d2']/2
        mp['h4'] = b + ins['d3']/2 + ins['h5'] - ins['d4']/2
        mp['d'] = math.hypot(along, a - b) - (ins['d2'] + ins['d3'])/2
    if split:
        for k in ('h6', 'd5', 'd6'):
            mp[k] = ins[k]
        mp['h7'] = ins['l1'] + ins['h6'] - ins['d5']/2 + ins['d6']/2
        mp['l'] = math.hypot(ins['l1'], ins['l2']) + ins['d5']/2 + ins['d6']/2
    mp['g'] = p['g']
    # torsional stiffness from the calibration rod
    irod = ins['mP']/12.0*(3*(ins['dP']/2)**2 + ins['lP']**2)
    k = 4*math.pi**2*irod/ins['TtP1']**2
    tt = lambda I: 2*math.pi*math.sqrt(I/k)
    tc = lambda I, m, l: 2*math.pi*math.sqrt((I + m*l*l)/(m*p['g']*l))
    for q in 'FR':
        mp['m' + q] = p['m' + q]
        mp['Tc%s1' % q] = tc(p['I%syy' % q], p['m' + q], ins['l' + q])
        mp['Tt%s1' % q] = tt(p['I%sxx' % q])
    if fly:
        mp['mD'] = p['mD'] + p['mF']
        mp['TcD1'] = tc(p['IDyy'] + p['IFyy'], mp['mD'], ins['lF'])
        mp['TtD1'] = tt(p['IDxx'] + p['IFxx'])
    refs = {'B': np.array([0., -p['rR']]), 'H': np.array([p['w'], -p['rF']]), 'S': np.array([p['w'], -p['rF']])}
    if split:
        refs['G'] = handlebar_ref(p, ins)
    for q in ('BSG' if split else 'BH'):
        mp['m' + q] = p['m' + q]
        com = np.array([p['x' + q], p['z' + q]])
        r = com - refs[q]
        mp['Tc%s1' % q] = tc(p['I%syy' % q], p['m' + q], math.hypot(*r))
        for i, alpha in enumerate(angles.get(q, ANG[q])):
            beta = p['lam'] - math.radians(alpha)
            u = np.array([math.cos(beta), 0.0, -math.sin(beta)])
            mp['alpha%s%d' % (q, i + 1)] = alpha
            mp['a%s%d' % (q, i + 1)] = -(r[0]*math.sin(beta) + r[1]*math.cos(beta))
            mp['Tt%s%d' % (q, i + 1)] = tt(u.dot(tens(p, q)).dot(u))
    if seat:
        mp.update({'hbb': 0.29, 'lcs': 0.44, 'lsp': 0.2, 'lst': 0.53, 'lamst': 1.2, 'whb': 0.55, 'LhbR': 1.1, 'LhbF': 0.88})
    if extra:
        mp.update(extra)
    return mp


def nondegenerate(p, angles):
    """hanging orientations whose lines are not (nearly) parallel or vertical"""
    b = [p['lam'] - math.radians(a) for a in angles]
    return all(abs(math.cos(x)) > 0.05 for x in b) and all(abs(math.sin(x - y)) > 0.15 for i, x in enumerate(b) for y in b[:i])
