"""Independent reference models ("boring" oracles) used by the checks.

Nothing in here imports the code under test.
"""
import math

import numpy as np

# -------------------------------------------------------------- base inputs
MEIJ = {'IBxx': 11.3557360401, 'IBxz': -1.96756380745, 'IByy': 12.2177848012,
        'IBzz': 3.12354397008, 'IFxx': 0.0904106601579,
        'IFyy': 0.149389340425, 'IHxx': 0.253379594731,
        'IHxz': -0.0720452391817, 'IHyy': 0.246138810935,
        'IHzz': 0.0955770796289, 'IRxx': 0.0883819364527,
        'IRyy': 0.152467620286, 'c': 0.0685808540382, 'g': 9.81,
        'lam': 0.399680398707, 'mB': 81.86, 'mF': 2.02, 'mH': 3.22,
        'mR': 3.11, 'rF': 0.34352982332, 'rR': 0.340958858855, 'v': 1.0,
        'w': 1.121, 'xB': 0.289099434117, 'xH': 0.866949640247,
        'zB': -1.04029228321, 'zH': -0.748236400835}
# the benchmark bicycle of Meijaard et al. (2007), table 1
BENCH = {'w': 1.02, 'c': 0.08, 'lam': math.pi/10, 'g': 9.81, 'v': 5.0,
         'rR': 0.3, 'mR': 2.0, 'IRxx': 0.0603, 'IRyy': 0.12,
         'xB': 0.3, 'zB': -0.9, 'mB': 85.0, 'IBxx': 9.2, 'IBxz': 2.4,
         'IByy': 11.0, 'IBzz': 2.8, 'xH': 0.9, 'zH': -0.7, 'mH': 4.0,
         'IHxx': 0.05892, 'IHxz': -0.00756, 'IHyy': 0.06, 'IHzz': 0.00708,
         'rF': 0.35, 'mF': 3.0, 'IFxx': 0.1405, 'IFyy': 0.28}
BENCH_M = [[80.81722, 2.31941332208709], [2.31941332208709, 0.29784188199686]]
BENCH_K0 = [[-80.95, -2.59951685249872], [-2.59951685249872, -0.80329488458618]]
BENCH_K2 = [[0.0, 76.59734589573222], [0.0, 2.65431523794604]]
BENCH_C1 = [[0.0, 33.86641391492494], [-0.85035641456978, 1.68540397397560]]
# legs-only bicycle of the dissertation
LEGS = dict(MEIJ, IBxx=2.18917391377, IBxz=-0.27087131147, IByy=2.9922715238,
            IBzz=1.61787114693, IFxx=0.0883819364527, IRxx=0.0904106601579,
            mB=33.044, xB=0.374570794542, zB=-0.681592725778)
LEAN = {'c9': 0.0, 'd1': 0.9631492634872098, 'd2': 0.4338396131640938,
        'd3': 0.0705000000001252, 'd4': -0.6704626684911591, 'g': 9.81,
        'ic11': 2.296859222953584, 'ic22': 2.9922715238,
        'ic31': 0.01594448114273473, 'ic33': 1.5101858377464155,
        'id11': 0.0904106601579, 'id22': 0.152467620286,
        'ie11': 0.2811355367159554, 'ie22': 0.246138810935,
        'ie31': 0.0063377219110826045, 'ie33': 0.06782113764394461,
        'if11': 0.0883819364527, 'if22': 0.149389340425,
        'ig11': 2.038073562525466, 'ig22': 1.692108544034995,
        'ig31': 0.002113501449812, 'ig33': 1.100753962972129, 'k9': 0.0,
        'l1': 0.47759794513190806, 'l2': -0.1680324796714025,
        'l3': -0.07654646159268344, 'l4': -0.47166687226492093,
        'l5': 0.231223496809401, 'l6': -0.271613547251923, 'mc': 33.044,
        'md': 3.11, 'me': 3.22, 'mf': 2.02, 'mg': 48.816,
        'rf': 0.34352982332, 'rr': 0.340958858855, 'v': 1.0}
M2019 = {'alphaD': 1.1722101094171953, 'alphaH': 0.3699481738478786,
         'alphaP': 0.18617531745505142, 'c': 0.0685808540382, 'g': 9.81,
         'kDaa': 0.28586689, 'kDbb': 0.22079007, 'kDyy': 0.36538846,
         'kFaa': 0.20917410328468122, 'kFyy': 0.27179382778091554,
         'kHaa': 0.29556015, 'kHbb': 0.14493343, 'kHyy': 0.27630431,
         'kPaa': 0.36717241, 'kPbb': 0.15276369, 'kPyy': 0.36796654,
         'kRaa': 0.1705027855542791, 'kRyy': 0.22136034463264698,
         'lP': 1.728, 'lam': 0.399680398707, 'mD': 9.86, 'mF': 2.02,
         'mH': 3.22, 'mP': 83.5, 'mR': 3.11, 'rF': 0.34352982332,
         'rR': 0.340958858855, 'v': 3.0, 'w': 1.121, 'wP': 0.483,
         'xD': 0.275951285677, 'xH': 0.866949640247,
         'xP': 0.3157679154070924, 'zD': -0.537842424305,
         'zH': -0.748236400835, 'zP': -1.0989885659819278}
GAINS = ['kTphi_phi', 'kTphi_del', 'kTphi_phid', 'kTphi_deld',
         'kTdel_phi', 'kTdel_del', 'kTdel_phid', 'kTdel_deld']
FB = dict(MEIJ, **{k: 0.5*(i + 1)*(-1)**i for i, k in enumerate(GAINS)})


# ------------------------------------------------------------ rigid bodies
def tensor(xx, xz, yy, zz):
    return np.array([[xx, 0., xz], [0., yy, 0.], [xz, 0., zz]], dtype=float)


def point(m, r):
    r = np.asarray(r, dtype=float)
    return m*(r @ r*np.eye(3) - np.outer(r, r))


def bodies(p):
    """mass, mass centre and central inertia of the benchmark bodies"""
    return {'R': (p['mR'], np.array([0., 0., -p['rR']]),
                  tensor(p['IRxx'], 0., p['IRyy'], p['IRxx'])),
            'B': (p['mB'], np.array([p['xB'], 0., p['zB']]),
                  tensor(p['IBxx'], p['IBxz'], p['IByy'], p['IBzz'])),
            'H': (p['mH'], np.array([p['xH'], 0., p['zH']]),
                  tensor(p['IHxx'], p['IHxz'], p['IHyy'], p['IHzz'])),
            'F': (p['mF'], np.array([p['w'], 0., -p['rF']]),
                  tensor(p['IFxx'], 0., p['IFyy'], p['IFxx']))}


def combine(bs):
    """mass, centre and central inertia of a list of (m, r, I)"""
    m = sum(b[0] for b in bs)
    r = sum(b[0]*b[1] for b in bs)/m
    I = sum(b[2] + point(b[0], b[1] - r) for b in bs)
    return m, r, I


def rot_y(angle):
    """axes rotation about y: components in a frame rotated by angle"""
    c, s = math.cos(angle), math.sin(angle)
    return np.array([[c, 0., -s], [0., 1., 0.], [s, 0., c]])


# ---------------------------------------------------------------- Whipple
def whipple(p):
    """Meijaard et al. (2007) appendix A, in tensor form."""
    b = bodies(p)
    mT, cT, IT = combine(list(b.values()))
    ITo = IT + point(mT, cT)              # about the rear contact point
    mA, cA, IA = combine([b['H'], b['F']])
    lam, w, c = p['lam'], p['w'], p['c']
    sl, cl = math.sin(lam), math.cos(lam)
    axis = np.array([sl, 0., cl])
    xA, _, zA = cA
    uA = (xA - w - c)*cl - zA*sl
    IAl = IA @ axis
    IAll = mA*uA**2 + axis @ IAl
    IAlx = -mA*uA*zA + IAl[0]
    IAlz = mA*uA*xA + IAl[2]
    mu = c/w*cl
    SR = p['IRyy']/p['rR']
    SF = p['IFyy']/p['rF']
    ST = SR + SF
    SA = mA*uA + mu*mT*cT[0]
    Ixx, Ixz, Izz = ITo[0, 0], ITo[0, 2], ITo[2, 2]
    M = np.array([[Ixx, IAlx + mu*Ixz],
                  [IAlx + mu*Ixz, IAll + 2.*mu*IAlz + mu**2*Izz]])
    K0 = np.array([[mT*cT[2], -SA], [-SA, -SA*sl]])
    K2 = np.array([[0., (ST - mT*cT[2])/w*cl], [0., (SA + SF*sl)/w*cl]])
    C1 = np.array([[0., mu*ST + SF*cl + Ixz/w*cl - mu*mT*cT[2]],
                   [-(mu*ST + SF*cl), IAlz/w*cl + mu*(SA + Izz/w*cl)]])
    return M, C1, K0, K2


def state_space(M, C1, K0, K2, v, g):
    Mi = np.linalg.inv(M)
    A = np.zeros((4, 4))
    A[:2, 2:] = np.eye(2)
    A[2:, :2] = -Mi @ (g*K0 + v*v*K2)
    A[2:, 2:] = -Mi @ (v*C1)
    B = np.vstack((np.zeros((2, 2)), Mi))
    return A, B


def whipple_ss(p, v=None, g=None):
    return state_space(*whipple(p), p['v'] if v is None else v,
                       p['g'] if g is None else g)


def feedback_ss(p):
    A, B = whipple_ss(p)
    K = np.array([[p[k] for k in GAINS[:4]], [p[k] for k in GAINS[4:]]], dtype=float)
    return A - B @ K, B


# -------------------------------------------------------------- eigenvalues
def same_multiset(a, b, tol):
    """greedy-with-backtracking-free matching of two sets of complex numbers"""
    a = list(np.ravel(a))
    b = list(np.ravel(b))
    if len(a) != len(b):
        return False
    for x in a:
        d = [abs(x - y) for y in b]
        k = int(np.argmin(d))
        if not d[k] <= tol:
            return False
        b.pop(k)
    return True


def eig_residual(A, evals, evecs):
    """largest |A v - lam v| relative to |A|; inf for malformed answers"""
    A = np.asarray(A, dtype=float)
    evals = np.asarray(evals)
    evecs = np.asarray(evecs)
    n = A.shape[0]
    if evals.shape != (n,) or evecs.shape != (n, n):
        return np.inf
    r = A @ evecs - evecs*evals[np.newaxis, :]
    return float(np.max(np.abs(r))/max(1.0, np.linalg.norm(A)))


def charpoly_error(A, evals):
    """relative coefficient error between the characteristic polynomial of A
    and the monic polynomial with the given roots; robust for repeated
    eigenvalues"""
    A = np.asarray(A, dtype=float)
    s = max(np.linalg.norm(A, 2), 1e-300)
    a = np.poly(A/s)
    b = np.poly(np.asarray(evals)/s)
    return float(np.max(np.abs(a - b)))


# ------------------------------------------------------------ value menus
# alternatives for every benchmark parameter (base value not repeated)
W_MENU = {
    'w': [0.35, 1.6], 'c': [-0.06, 0.0, 0.35], 'lam': [-0.35, 0.0, 1.1],
    'g': [0.0, 1.62], 'v': [-5.0, 0.0, 7.3],
    'rR': [0.08, 0.7], 'mR': [0.0, 12.0], 'IRxx': [0.0, 1.3], 'IRyy': [0.0, 2.1],
    'xB': [-0.4, 0.0, 1.5], 'zB': [-1.9, 0.0, 0.25], 'mB': [0.0, 7.5],
    'IBxx': [0.0, 31.0], 'IBxz': [0.0, 3.3], 'IByy': [0.0, 40.0], 'IBzz': [0.0, 17.0],
    'xH': [0.0, -0.3, 1.9], 'zH': [0.0, -1.6, 0.2], 'mH': [0.0, 25.0],
    'IHxx': [0.0, 2.5], 'IHxz': [0.0, 0.4], 'IHyy': [0.0, 3.0], 'IHzz': [0.0, 1.9],
    'rF': [0.1, 0.62], 'mF': [0.0, 9.0], 'IFxx': [0.0, 0.9], 'IFyy': [0.0, 1.7]}


# ------------------------------------------------- leaning rider (Moore 2012)
def lean_tilt(rr, rf, d1, d2, d3):
    """steer axis tilt of the plane figure in which both wheels touch ground"""
    return math.atan2(d2, d1 + d3) + math.asin((rf - rr)/math.hypot(d1 + d3, d2))


def lean_bodies(p, lam=None):
    """bodies of the leaning rider bicycle in benchmark axes, plus geometry;
    also of the rigid rider set of the same author (no body G)"""
    if lam is None:
        lam = lean_tilt(p['rr'], p['rf'], p['d1'], p['d2'], p['d3'])
    sl, cl = math.sin(lam), math.cos(lam)
    R = np.array([[cl, 0., sl], [0., 1., 0.], [-sl, 0., cl]])   # columns c1 c2 c3
    rear = np.array([0., 0., -p['rr']])
    front = rear + R @ np.array([p['d1'] + p['d3'], 0., p['d2']])
    w = front[0]
    fo = p['d3']
    c = (p['rf']*sl - fo)/cl
    t = lambda b, zz=True: tensor(p['i%s11' % b], p.get('i%s31' % b, 0.), p['i%s22' % b],
                                  p['i%s33' % b] if zz else p['i%s11' % b])
    bs = {'R': (p['md'], rear, t('d', False)),
          'C': (p['mc'], rear + R @ np.array([p['l1'], 0., p['l2']]), R @ t('c') @ R.T),
          'H': (p['me'], front + R @ np.array([p['l3'], 0., p['l4']]), R @ t('e') @ R.T),
          'F': (p['mf'], front, t('f', False))}
    if 'mg' not in p:
        return bs, {'lam': lam, 'w': w, 'c': c}
    bs['G'] = (p['mg'], np.array([p['l5'], 0., -p['rr'] + p['d4'] + p['l6']]), t('g'))
    return bs, {'lam': lam, 'w': w, 'c': c, 'zh': -p['rr'] + p['d4']}


def lean_matrices(p, lean=True):
    """mass, damping and stiffness matrices for roll, steer, lean: virtual work
    of the inertia, gyroscopic and gravity forces under the no side slip
    constraints, small angles"""
    bs, geo = lean_bodies(p)
    lam, w, c, v, g = geo['lam'], geo['w'], geo['c'], p['v'], p['g']
    sl, cl = math.sin(lam), math.cos(lam)
    mu = c*cl/w
    # columns: y, yaw, roll, steer, lean.  lateral displacement, roll and yaw
    # of each body
    D = {}
    for k, (m, r, I) in bs.items():
        y = np.array([1., r[0], -r[2], 0., 0.])
        ro = np.array([0., 0., 1., 0., 0.])
        ya = np.array([0., 1., 0., 0., 0.])
        if k in 'HF':
            y[3] = cl*(r[0] - w - c) - sl*r[2]
            ro[3], ya[3] = sl, cl
        if k == 'G' and lean:
            y[4] = -(r[2] - geo['zh'])
            ro[4] = 1.
        D[k] = (y, ro, ya)
    n = 5
    Mf, Cf = np.zeros((n, n)), np.zeros((n, n))
    for k, (m, r, I) in bs.items():
        y, ro, ya = D[k]
        Mf += m*np.outer(y, y) + I[0, 0]*np.outer(ro, ro) + I[2, 2]*np.outer(ya, ya)
        Mf += I[0, 2]*(np.outer(ro, ya) + np.outer(ya, ro))
    for k, r, I in (('R', p['rr'], p['id22']), ('F', p['rf'], p['if22'])):
        H = -I*v/r
        y, ro, ya = D[k]
        Cf += H*(np.outer(ya, ro) - np.outer(ro, ya))
    # gravity
    mT = sum(b[0] for b in bs.values())
    zT = sum(b[0]*b[1][2] for b in bs.values())/mT
    xT = sum(b[0]*b[1][0] for b in bs.values())/mT
    SA = sum(bs[k][0]*D[k][0][3] for k in 'HF') + mu*mT*xT
    K = np.zeros((3, 3))
    K[0, 0] = mT*zT
    K[0, 1] = K[1, 0] = -SA
    K[1, 1] = -SA*sl
    lg = p['l6']
    K[0, 2] = K[2, 0] = K[2, 2] = bs['G'][0]*lg
    K *= g
    # virtual displacements: rear contact does not slip, yaw follows steer
    V = np.zeros((n, 3))
    V[2, 0] = 1.
    V[3, 1] = 1.
    V[1, 1] = mu
    V[4, 2] = 1.
    # velocities: yaw' = mu steer' + v cl/w steer ; y' = v yaw (rear contact)
    a = v*cl/w
    # accelerations (full) = V q'' + P q' + Q q
    P = np.zeros((n, 3))
    Q = np.zeros((n, 3))
    P[1, 1] = a                  # yaw''
    P[0, 1] = v*mu               # y'' = v yaw'
    Q[0, 1] = v*a
    # velocities (full) = V q' + S q
    S = np.zeros((n, 3))
    S[1, 1] = a
    M = V.T @ Mf @ V
    C = V.T @ (Mf @ P + Cf @ V)
    Kt = K + V.T @ (Mf @ Q + Cf @ S)
    C[2, 2] += p['c9']
    Kt[2, 2] += p['k9']
    return M, C, Kt, geo


def lean_ss(p):
    """12 state A and 12x3 B of the leaning rider model; states q1 q2 q3 q4 q6
    q7 q8 q9 u4 u6 u7 u9"""
    M, C, K, geo = lean_matrices(p)
    Mi = np.linalg.inv(M)
    A, B = np.zeros((12, 12)), np.zeros((12, 3))
    rows, ang = [8, 10, 11], [3, 5, 7]
    A[np.ix_(rows, ang)] = -Mi @ K
    A[np.ix_(rows, rows)] = -Mi @ C
    B[rows] = Mi
    for q, u in zip(ang + [4], rows + [9]):
        A[q, u] = 1.
    cl = math.cos(geo['lam'])
    A[0, 9] = -p['rr']
    A[1, 2] = p['v']
    A[2, 5] = p['v']*cl/geo['w']
    A[2, 10] = geo['c']*cl/geo['w']
    A[6, 9] = p['rr']/p['rf']
    return A, B


# ------------------------------------------------- principal set (Moore 2019)
def principal_bodies(p):
    """bodies of the principal parameter set: axis aa of each body points
    along (cos(alpha), 0, -sin(alpha))"""
    def t(b):
        m, a = p['m' + b], p['alpha' + b]
        ax = np.array([math.cos(a), 0., -math.sin(a)])
        bx = np.array([math.sin(a), 0., math.cos(a)])
        return m*(p['k%saa' % b]**2*np.outer(ax, ax) + p['k%sbb' % b]**2*np.outer(bx, bx) +
                  p['k%syy' % b]**2*np.diag([0., 1., 0.]))

    def wheel(b):
        return p['m' + b]*np.diag([p['k%saa' % b]**2, p['k%syy' % b]**2, p['k%saa' % b]**2])
    v = lambda b: np.array([p['x' + b], 0., p['z' + b]])
    return {'R': (p['mR'], np.array([0., 0., -p['rR']]), wheel('R')),
            'F': (p['mF'], np.array([p['w'], 0., -p['rF']]), wheel('F')),
            'D': (p['mD'], v('D'), t('D')), 'P': (p['mP'], v('P'), t('P')), 'H': (p['mH'], v('H'), t('H'))}


def principal_to_benchmark(p):
    bs = principal_bodies(p)
    m, r, I = combine([bs['D'], bs['P']])
    H = bs['H'][2]
    out = {k: p[k] for k in ('w', 'c', 'lam', 'g', 'v', 'rR', 'rF', 'mR', 'mF', 'mH', 'xH', 'zH')}
    out.update(mB=m, xB=r[0], zB=r[2], IBxx=I[0, 0], IBxz=I[0, 2], IByy=I[1, 1], IBzz=I[2, 2],
               IHxx=H[0, 0], IHxz=H[0, 2], IHyy=H[1, 1], IHzz=H[2, 2],
               IRxx=bs['R'][2][0, 0], IRyy=bs['R'][2][1, 1], IFxx=bs['F'][2][0, 0], IFyy=bs['F'][2][1, 1])
    return out


P_MENU = {
    'alphaD': [-0.7, 0.0, 1.5707963267948966, 2.6], 'alphaH': [-0.7, 0.0, 1.5707963267948966], 'alphaP': [-1.2, 0.0, 0.9],
    'c': [-0.05, 0.0, 0.3], 'g': [0.0, 1.62], 'kDaa': [0.0, 0.9], 'kDbb': [0.0, 0.7], 'kDyy': [0.0, 0.8],
    'kFaa': [0.0, 0.4], 'kFyy': [0.0, 0.5], 'kHaa': [0.0, 0.6], 'kHbb': [0.0, 0.5], 'kHyy': [0.0, 0.55],
    'kPaa': [0.0, 0.8], 'kPbb': [0.0, 0.6], 'kPyy': [0.0, 0.7], 'kRaa': [0.0, 0.4], 'kRyy': [0.0, 0.5],
    'lP': [1.1, 2.0], 'lam': [-0.3, 0.0, 1.0], 'mD': [0.0, 30.0], 'mF': [0.0, 8.0], 'mH': [0.0, 20.0],
    'mP': [0.0, 8.0, 150.0], 'mR': [0.0, 11.0], 'rF': [0.1, 0.6], 'rR': [0.1, 0.6], 'v': [-2.0, 0.0, 7.0],
    'w': [0.4, 1.6], 'wP': [0.2, 0.9], 'xD': [-0.4, 0.0, 1.0], 'xH': [-0.2, 0.0, 1.7], 'xP': [-0.5, 0.0, 1.1],
    'zD': [-1.3, 0.0, 0.2], 'zH': [-1.5, 0.0, 0.3], 'zP': [-2.1, 0.0, 0.3]}
