"""C23: bicycle drawings place every part where the parameters put it.

All drawing functions are run for all body selections and options on bounded
deviations of bicycles; the drawn artists are read back as primitives (lines,
circles, ellipses, wedges, labels) and matched one to one with primitives
computed independently from the parameters.
"""
import itertools
import math

import numpy as np

from mc import refs
from mc.bikes import load_params, nom, shipped, unc
from mc.engine import Outcome, chunks, deviations, snap
from mc.models_common import make_set
from mc.props.c15 import own
from mc.props.c24 import to_bike

from bicycleparameters import parameter_sets

ID = 'C23'
LEVEL = 'exploration'
TECHNIQUE = ('exhaustive enumeration of drawing functions x body selections x options x bounded-deviation bicycles on the real code, drawn artists read back and '
             'matched one to one with independently computed primitives')
LEVEL_NOTE = ('All single (thorough: pairs of selected) parameter deviations of three drawable parameter sets x every drawing function, all body subsets, axes given '
              'or not; bicycles within the same deviations on plain and uncertain numbers, with flywheel, split fork and rider, all 8 option combinations, static and interactive.')
RULE = 'one evaluation = one drawing matched, one argument, axes or label judgement'
ASSUMPTIONS = ['bodies with zero mass or physically impossible gyration radii have no gyration or ellipse drawing to judge']


def plt():
    import matplotlib
    matplotlib.rcParams.update({'figure.max_open_warning': 0, 'text.parse_math': False, 'figure.dpi': 20})
    import matplotlib.pyplot as p
    return p


# -------------------------------------------------- primitives and matching
def conic(x, z, width, height, deg):
    """matrix of the ellipse (p-c)' M (p-c) = 1"""
    a = math.radians(deg)
    u, v = np.array([math.cos(a), math.sin(a)]), np.array([-math.sin(a), math.cos(a)])
    return np.outer(u, u)/(width/2)**2 + np.outer(v, v)/(height/2)**2


def read(ax, skip=0):
    """primitives drawn on axes"""
    from matplotlib.patches import Circle, Ellipse, Wedge
    out = []
    for l in ax.lines:
        x, y = np.asarray(l.get_xdata(orig=False), dtype=float), np.asarray(l.get_ydata(orig=False), dtype=float)
        if l.get_transform() != ax.transData and len(x) == 2 and y[0] == y[1]:
            out.append(('ground', float(y[0])))
        else:
            out.append(('line', np.array([x, y])))
    for c in ax.patches:
        if isinstance(c, Wedge):
            out.append(('wedge', tuple(float(v) for v in c.center) + (float(c.r), c.theta1 % 360, c.theta2 % 360)))
        elif isinstance(c, Circle):
            out.append(('circle', tuple(float(v) for v in c.center) + (float(c.radius),)))
        elif isinstance(c, Ellipse):
            out.append(('ellipse', tuple(float(v) for v in c.center), conic(*c.center, c.width, c.height, c.angle)))
        else:
            out.append(('patch', str(c)))
    for t in ax.texts:
        out.append(('text', t.get_text(), tuple(float(v) for v in t.get_position())))
    return out[skip:] if skip else out


def near(a, b, tol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol*(1 + np.abs(b))))


def same(a, b):
    if a[0] != b[0]:
        # a circle may be drawn as an ellipse
        if {a[0], b[0]} == {'circle', 'ellipse'}:
            c, e = (a, b) if a[0] == 'circle' else (b, a)
            return near(c[1][:2], e[1]) and near(e[2], np.eye(2)/c[1][2]**2, 1e-7)
        return False
    if a[0] == 'line':
        return near(a[1], b[1]) or near(a[1][:, ::-1], b[1])
    if a[0] == 'ellipse':
        return near(a[1], b[1]) and near(a[2]/np.max(b[2]), b[2]/np.max(b[2]), 1e-7)
    if a[0] == 'text':
        return a[1] == b[1] and math.hypot(a[2][0] - b[2][0], a[2][1] - b[2][1]) <= b[3]
    return near(a[1], b[1])


def match(got, want):
    """unmatched wanted and drawn primitives"""
    left, missing = list(got), []
    for w in want:
        hit = [i for i, g in enumerate(left) if same(g, w)]
        if hit:
            left.pop(hit[0])
        else:
            missing.append(w)
    return missing, left


def judge(o, got, want, sig, how):
    missing, extra = match(got, want)
    o.check(not missing and not extra, sig, lambda: '%s missing %r drawn instead %r' % (how, missing[:3], extra[:3]))
    o.states += 1


def line(*pts):
    return ('line', np.array(pts, dtype=float).T)


# ------------------------------------------------------------ expectations
def frame_points(p):
    """rear axle, foot on the steer axis of the rear and of the front axle, front axle (z down)"""
    ax = np.array([math.sin(p['lam']), math.cos(p['lam'])])          # down along the steer axis
    q = np.array([p['w'] + p['c'], 0.0])
    r, f = np.array([0.0, -p['rR']]), np.array([p['w'], -p['rF']])
    return [r, q + ax*np.dot(r - q, ax), q + ax*np.dot(f - q, ax), f]


def want_geometry(p, steer, up=False):
    s = -1.0 if up else 1.0
    pts = [np.array([x, s*z]) for x, z in frame_points(p)]
    out = [('circle', (0.0, -s*p['rR'], p['rR'])), ('circle', (p['w'], -s*p['rF'], p['rF'])), line(*pts)]
    if steer:
        out.append(line(pts[2], (p['w'] + p['c'], 0.0)))
    return out


def want_com(x, z, r, label):
    return [('circle', (x, z, r)), ('wedge', (x, z, r, 0.0, 90.0)), ('wedge', (x, z, r, 180.0, 270.0)), ('text', label, (x, z), 2.5*r)]


def bodies_of(kind, p):
    """body -> mass, centre (x, z), Ixx, Iyy, Izz, Ixz"""
    if kind == 'P':
        bs = refs.principal_bodies(p)
    else:
        bs = {'R': (p['mR'], (0.0, 0.0, -p['rR']), refs.tensor(p['IRxx'], 0.0, p['IRyy'], p['IRxx'])),
              'F': (p['mF'], (p['w'], 0.0, -p['rF']), refs.tensor(p['IFxx'], 0.0, p['IFyy'], p['IFxx'])),
              'B': (p['mB'], (p['xB'], 0.0, p['zB']), refs.tensor(p['IBxx'], p['IBxz'], p['IByy'], p['IBzz'])),
              'H': (p['mH'], (p['xH'], 0.0, p['zH']), refs.tensor(p['IHxx'], p['IHxz'], p['IHyy'], p['IHzz']))}
    return {b: (m, r[0], r[2], I) for b, (m, r, I) in bs.items()}


def radii(I, m):
    """gyration radii and plane principal directions, independent of the code"""
    w, V = np.linalg.eigh(np.array([[I[0, 0], I[0, 2]], [I[0, 2], I[2, 2]]])/m)
    return np.sqrt(w), V, math.sqrt(I[1, 1]/m)


def drawable(m, I):
    if m <= 1e-12:
        return False
    w = np.linalg.eigvalsh(np.array([[I[0, 0], I[0, 2]], [I[0, 2], I[2, 2]]]))
    if w[0] <= 1e-12*w[1] or I[1, 1] <= 0:
        return False
    return True


def solid(I):
    """semi axes squared (times mass) of the homogeneous ellipsoid are positive"""
    w = np.linalg.eigvalsh(np.array([[I[0, 0], I[0, 2]], [I[0, 2], I[2, 2]]]))
    return I[1, 1] + w[0] - w[1] > 1e-9*w[1] and I[1, 1] + w[1] - w[0] > 0


def lines_match(got, m, x, z, I):
    """a circle of the lateral radius and, along each principal direction, the radius of the
    perpendicular axis' mass distribution: kbb along aa and kaa along bb"""
    k, V, kyy = radii(I, m)
    out = [('circle', (x, z, kyy))]
    for j in (0, 1):
        # the extent along direction j is the radius of gyration about the other direction
        d = V[:, j]*k[1 - j]
        out.append(line((x - d[0], z - d[1]), (x + d[0], z + d[1])))
    return out


def want_radii(m, x, z, I):
    return lines_match(None, m, x, z, I)


def want_ellipse(m, x, z, I):
    w, V = np.linalg.eigh(np.array([[I[0, 0], I[0, 2]], [I[0, 2], I[2, 2]]])/m)
    kyy2 = I[1, 1]/m
    M = np.zeros((2, 2))
    for j in (0, 1):
        a2 = 2.5*(kyy2 + w[1 - j] - w[j])
        M += np.outer(V[:, j], V[:, j])/a2
    return [('ellipse', (x, z), M)]


def want_diamond(p, cross):
    a = np.array([math.cos(p['alphaP']), -math.sin(p['alphaP'])])*p['wP']/2
    b = np.array([math.sin(p['alphaP']), math.cos(p['alphaP'])])*p['lP']/2
    c = np.array([p['xP'], p['zP']])
    return [c + a, c - b, c - a, c + b], [line(c - a, c + a), line(c - b, c + b)] if cross else []


# ----------------------------------------------------------------- run sets
def build(kind, over):
    if kind == 'P':
        p = {k: float(v) for k, v in dict(refs.M2019, **over).items()}
        return parameter_sets.Moore2019ParameterSet(p), p
    s = make_set(kind, over)
    return s, dict(s.parameters)


def calls(kind, labels):
    """drawing calls of a parameter set: (method, arguments)"""
    yield 'plot_geometry', {'show_steer_axis': True}
    yield 'plot_geometry', {'show_steer_axis': False}
    yield 'plot_geometry', {}
    for fn in ('plot_mass_centers', 'plot_principal_radii_of_gyration', 'plot_principal_inertia_ellipsoids'):
        yield fn, {}
        yield fn, {'bodies': list(labels)}
    for fn in ('plot_body_mass_center', 'plot_body_principal_radii_of_gyration', 'plot_body_principal_inertia_ellipsoid'):
        for b in labels:
            yield fn, {'body': b}
    if kind == 'P':
        for c in (False, True):
            yield 'plot_person_diamond', {'show_cross': c}
    yield 'plot_all', {}


def subset_calls(labels):
    for n in range(0, len(labels)):
        for sub in itertools.permutations(labels, n) if n < 3 else itertools.combinations(labels, n):
            for fn in ('plot_mass_centers', 'plot_principal_radii_of_gyration', 'plot_principal_inertia_ellipsoids'):
                yield fn, {'bodies': list(sub)}


def strip_diamond(o, got, p, how):
    """removes the outline of the person from what was drawn"""
    v, _ = want_diamond(p, False)
    for i, g in enumerate(got):
        if g[0] == 'line' and g[1].shape[1] == 5 and near(g[1][:, 0], g[1][:, -1]):
            pts = [g[1][:, k] for k in range(4)]
            k0 = [k for k in range(4) if near(pts[k], v[0], 1e-9)]
            for k in k0:
                for d in (1, -1):
                    if all(near(pts[(k + d*j) % 4], v[j], 1e-9) for j in range(4)):
                        got.pop(i)
                        return True
    return False


def expect(kind, p, fn, args, labels):
    bs = bodies_of(kind, p)
    r = p['w']/10 if kind != 'P' else max(p['w'], p['lP'])/30
    want = []
    sel = [args['body']] if 'body' in args else args.get('bodies', labels) if args.get('bodies', None) is not None else labels
    diamond = False
    if fn == 'plot_geometry' or fn == 'plot_all':
        want += want_geometry(p, args.get('show_steer_axis', True)) + [('ground', 0.0)]
    for b in sel:
        m, x, z, I = bs[b]
        if 'mass_center' in fn or fn == 'plot_all':
            want += want_com(x, z, r, b)
        if 'radii' in fn or fn == 'plot_all':
            if not drawable(m, I):
                return None, False
            want += want_radii(m, x, z, I)
        if 'ellipsoid' in fn or fn == 'plot_all':
            if not drawable(m, I) or not solid(I):
                return None, False
            want += want_ellipse(m, x, z, I)
    if fn == 'plot_person_diamond':
        want += want_diamond(p, args['show_cross'])[1]
        diamond = True
    return want, diamond or (fn == 'plot_all' and kind == 'P')


def colours_ok(s, ax, body):
    """all coloured artists of a single body drawing share the body's colour"""
    from matplotlib.colors import to_rgb
    c = to_rgb(s.body_colors[body])
    cols = [to_rgb(l.get_color()) for l in ax.lines]
    from matplotlib.patches import Wedge
    for q in ax.patches:
        if isinstance(q, Wedge):
            cols.append(to_rgb(q.get_facecolor()))
        elif not q.get_fill() and ax.lines:
            cols.append(to_rgb(q.get_edgecolor()))
    return all(near(x, c, 1e-6) for x in cols)


def run_sets(case):
    o = Outcome()
    p_ = plt()
    kind = case['m']
    for over in case['pts']:
        s, p = build(kind, over)
        labels = list(s.body_labels)
        o.check(set(labels) == set(bodies_of(kind, p)), 'set-bodies', str(labels))
        before = snap(s.parameters)
        todo = list(subset_calls(labels)) if case.get('subsets') else list(calls(kind, labels))
        for i, (fn, args) in enumerate(todo):
            want, diamond = expect(kind, p, fn, args, labels)
            if want is None:
                continue
            how = '%s %s(%r) %r' % (kind, fn, args, over)
            given = (i + len(str(over))) % 2
            if given:
                fig, axs = p_.subplots(1, 2)
                ax = axs[0]
                ax.plot([3.0, 4.0], [5.0, 6.0])
                if i % 3 == 0:
                    ax.invert_yaxis()
                n = len(p_.get_fignums())
                got = getattr(s, fn)(ax=ax, **args)
                o.check(got is ax, 'given-axes', how)
                o.check(len(p_.get_fignums()) == n, 'new-figure', how)
                o.check(not read(axs[1]), 'other-axes', how)
                o.check(near(ax.lines[0].get_xdata(), [3.0, 4.0]) and near(ax.lines[0].get_ydata(), [5.0, 6.0]), 'given-axes-content', how)
                prim = read(ax, 1)
            else:
                n = len(p_.get_fignums())
                got = getattr(s, fn)(**args)
                o.check(len(p_.get_fignums()) == n + 1, 'one-figure', how)
                prim = read(got)
            if diamond:
                o.check(strip_diamond(o, prim, p, how), 'diamond', lambda: '%s %r' % (how, prim))
            judge(o, prim, want, fn.replace('plot_', ''), how)
            if not given:
                view(o, got, [w for w in prim if w[0] in ('line', 'circle', 'ellipse')], how, 'visible')
            o.check(got.yaxis_inverted(), 'z-down', how)
            o.check(got.get_aspect() in (1.0, 'equal'), 'aspect', how)
            o.check(snap(s.parameters) == before, 'parameters', how)
            if 'body' in args and not given:
                o.check(colours_ok(s, got, args['body']), 'colour', how)
            p_.close('all')
        o.key(str(sorted(over.items())))
    return o


# ------------------------------------------------------------- run bicycles
def parts_of(p):
    return [k[1] for k in p if k.startswith('m') and len(k) == 2]


def part_tensor(p, b):
    if b in 'RFD':
        return refs.tensor(p['I%sxx' % b], 0.0, p['I%syy' % b], p['I%sxx' % b])
    return refs.tensor(p['I%sxx' % b], p['I%sxz' % b], p['I%syy' % b], p['I%szz' % b])


def centre(p, b):
    if b == 'R':
        return 0.0, p['rR']
    if b in 'FD':
        return p['w'], p['rF']
    return p['x' + b], -p['z' + b]


def want_bike(b, pendulum, com, ellipse):
    p = dict(nom(b.parameters['Benchmark']))
    parts = parts_of(p)
    out = want_geometry(p, True, up=True) + [line((-p['rR'], 0.0), (p['w'] + p['rF'], 0.0))]
    if ellipse:
        for q in parts:
            I = part_tensor(p, q)
            w, V = np.linalg.eigh(np.array([[I[0, 0], -I[0, 2]], [-I[0, 2], I[2, 2]]]))
            L = w[1]/2
            S = L*math.sqrt(w[0]/w[1])
            M = np.outer(V[:, 0], V[:, 0])/(L/2)**2 + np.outer(V[:, 1], V[:, 1])/(S/2)**2
            out.append(('ellipse', centre(p, q), M))
    pend = []
    if pendulum and hasattr(b, 'extras') and not b.hasRider:
        e = b.extras
        for q in e['slopes']:
            for i in range(len(e['slopes'][q])):
                m, c, L = nom(e['slopes'][q][i]), nom(e['intercepts'][q][i]), nom(e['pendulumInertias'][q][i])
                d = np.array([1.0, m])/math.hypot(1.0, m)
                r0 = np.array([0.0, c])
                g = np.array([p['x' + q], p['z' + q]])
                f = r0 + d*np.dot(g - r0, d)
                a, z = f - d*L/2, f + d*L/2
                pend.append((line((a[0], -a[1]), (z[0], -z[1])), str(i + 1), [(a[0], -a[1]), (z[0], -z[1])]))
    coms = []
    if com:
        for q in parts:
            if q != 'D':
                coms.append((q,) + tuple(centre(p, q)))
    return out, pend, coms


def run_bikes(case):
    o = Outcome()
    p_ = plt()
    for spec, opts in case['items']:
        b = bicycle_of(spec)
        raw = spec[0] == 'raw'
        before = own(b.parameters)
        exb = own(getattr(b, 'extras', None))
        for pe, co, el in opts:
            how = '%r pendulum=%r com=%r ellipse=%r' % (spec, pe, co, el)
            base, pend, coms = want_bike(b, pe, co, el)
            n = len(p_.get_fignums())
            fig = b.plot_bicycle_geometry(show=False, pendulum=pe, centerOfMass=co, inertiaEllipse=el)
            o.check(len(p_.get_fignums()) == n + 1 and len(fig.axes) == 1, 'bike-figure', how)
            want = list(base)
            for l, t, ends in pend:
                want.append(l)
            for q, x, z in coms:
                want += [w for w in want_com(x, z, 0.03, q)]
            prim = read(fig.axes[0])
            stick = stick_lines(b)
            if stick:
                want += stick
                view(o, fig.axes[0], stick + [w for w in base if w[0] != 'ellipse'], how)
            # the numbers of the pendulum lines stand at an end of their line
            for l, t, ends in pend:
                hit = [i for i, g in enumerate(prim) if g[0] == 'text' and g[1] == t and any(math.hypot(g[2][0] - x, g[2][1] - z) < 1e-6 for x, z in ends)]
                if o.check(len(hit) > 0, 'bike-pendulum-label', how):
                    prim.pop(hit[0])
            judge(o, prim, want, 'bike', how)
            o.check(not fig.axes[0].yaxis_inverted() and fig.axes[0].get_aspect() in (1.0, 'equal'), 'bike-up', how)
            o.check(b.bicycleName in fig.axes[0].get_title(), 'bike-title', how)
            p_.close('all')
            if hasattr(b, '_plot_bicycle_geometry_plotly'):  # not a public name
                judge_plotly(o, b._plot_bicycle_geometry_plotly(show=False, pendulum=pe, centerOfMass=co, inertiaEllipse=el), b, base, pend, coms, how + ' interactive')
            ok = repr(own(b.parameters)) == repr(before) if not raw else all(nom(x) == nom(y) for x, y in zip(b.parameters['Benchmark'].values(), before['Benchmark'].values()))
            o.check(ok and (exb is None or list(b.extras) == list(exb)), 'bike-parameters', how)
        o.key(repr(spec))
    return o


def stick_lines(b):
    """limbs of the right side, trunk and head of a configured rider"""
    if getattr(b, 'human', None) is None:
        return []
    h, m, p = b.human, nom(b.parameters['Measured']), nom(b.parameters['Benchmark'])
    out = []
    for u, v in ((h.K2.end_pos, h.K2.pos), (h.K2.pos, h.K1.pos), (h.K1.pos, h.B1.pos), (h.B1.pos, h.B2.pos), (h.B2.pos, h.B2.end_pos), (h.B1.pos, h.C.end_pos)):
        out.append(line(*[to_bike(q, m, p)[[0, 2]]*[1, -1] for q in (u, v)]))
    return out


def view(o, ax, prims, how, sig='bike-visible'):
    """rider, wheels and frame lie within the limits of the drawing"""
    (xa, xb), (ya, yb) = sorted(ax.get_xlim()), sorted(ax.get_ylim())
    for w in prims:
        if w[0] == 'line':
            x, y = w[1]
        elif w[0] == 'ellipse':
            e = np.sqrt(np.diag(np.linalg.inv(w[2])))
            x, y = [w[1][0] - e[0], w[1][0] + e[0]], [w[1][1] - e[1], w[1][1] + e[1]]
        else:
            x, y = [w[1][0] - w[1][2], w[1][0] + w[1][2]], [w[1][1] - w[1][2], w[1][1] + w[1][2]]
        o.check(xa - 1e-9 <= min(x) and max(x) <= xb + 1e-9 and ya - 1e-9 <= min(y) and max(y) <= yb + 1e-9, sig, lambda: '%s %r outside %r' % (how, w, (xa, xb, ya, yb)))


def judge_plotly(o, fig, b, base, pend, coms, how):
    p = dict(nom(b.parameters['Benchmark']))
    used = set()
    tr = [(t.name, np.array([np.asarray(t.x, dtype=float), np.asarray(t.y, dtype=float)])) for t in fig.data]

    def take(pred, sig, msg=''):
        hit = [i for i, t in enumerate(tr) if i not in used and pred(t)]
        if o.check(len(hit) >= 1, sig, lambda: how + ' ' + msg):
            used.add(hit[0])

    def on_circle(xy, c, r):
        d = np.hypot(xy[0] - c[0], xy[1] - c[1])
        return near(d, np.full(d.shape, r)) and xy.shape[1] > 20 and near(xy[:, 0], xy[:, -1], 1e-7)
    take(lambda t: t[0] == 'Rear wheel' and on_circle(t[1], (0.0, p['rR']), p['rR']), 'inter-rear-wheel')
    take(lambda t: t[0] == 'Front wheel' and on_circle(t[1], (p['w'], p['rF']), p['rF']), 'inter-front-wheel')
    # the wheels are round and in view
    xa, ya = fig.layout.xaxis, fig.layout.yaxis
    o.check(ya.scaleanchor == 'x' and ya.scaleratio in (None, 1, 1.0) or xa.scaleanchor == 'y' and xa.scaleratio in (None, 1, 1.0), 'inter-aspect', how)
    for a, lo, hi in ((xa, -p['rR'], p['w'] + p['rF']), (ya, 0.0, 2*max(p['rR'], p['rF']))):
        o.check(a.range is None or min(a.range) <= lo + 1e-9 and max(a.range) >= hi - 1e-9, 'inter-visible', lambda: '%s %r' % (how, a.range))
    names = {0: 'Bicycle', 1: 'Steer axis', 2: 'Ground'}
    for i, w in enumerate([w for w in base if w[0] == 'line']):
        take(lambda t: t[0] == names[i] and same(('line', t[1]), w), 'inter-' + names[i].lower().replace(' ', '-'))
    ell = [w for w in base if w[0] == 'ellipse']
    for q, w in zip(parts_of(p), ell):
        def on(t):
            if t[0] != 'Inertia of ' + q or t[1].shape[1] < 20:
                return False
            d = t[1] - np.array(w[1])[:, None]
            f = np.einsum('ik,ij,jk->k', d, w[2], d)
            ang = np.unwrap(np.arctan2(*(np.linalg.cholesky(w[2]).T @ d)[::-1]))
            return near(f, np.ones(f.shape), 1e-6) and abs(abs(ang[-1] - ang[0]) - 2*np.pi) < 1e-4
        take(on, 'inter-ellipse', q)
    for l, t, ends in pend:
        take(lambda x: x[0] == 'Pendulum' and same(('line', x[1]), l), 'inter-pendulum')
    for q, x, z in coms:
        take(lambda t: t[0] == 'COM' and near(t[1], np.array([[x, x], [z, z]])), 'inter-com', q)
        ann = [a for a in fig.layout.annotations if a.text == q]
        o.check(len(ann) >= 1 and any(math.hypot(a.x - x, a.y - z) < 0.12 for a in ann), 'inter-com-label', how + q)
        # the pieces of the symbol: quarter circles and radii around the centre
        pieces = []
        for i, t in enumerate(tr):
            if i in used or t[0] is not None or t[1].shape[1] < 2:
                continue
            d = np.hypot(t[1][0] - x, t[1][1] - z)
            if np.all(d < 0.03 + 1e-9):
                pieces.append((i, t[1]))
        arcs = [(i, xy) for i, xy in pieces if xy.shape[1] > 20 and near(np.hypot(xy[0] - x, xy[1] - z), np.full(xy.shape[1], 0.03), 1e-6)]
        o.check(len(arcs) >= 4 and len(pieces) >= 8, 'inter-com-symbol', lambda: '%s %s %d %d' % (how, q, len(arcs), len(pieces)))
        used.update(i for i, _ in pieces[:8] if len(pieces) == 8)
        used.update(i for i, _ in pieces)
    stick = stick_lines(b)
    if stick:
        take(lambda t: same(('line', t[1]), stick[0]), 'inter-leg')
        used.update(i for i, t in enumerate(tr) if t[1].shape[1] == 2 and any(same(('line', t[1]), w) for w in stick[1:]))
    o.check(len(used) == len(tr), 'inter-extra', lambda: '%s %r' % (how, [tr[i][0] for i in range(len(tr)) if i not in used]))
    o.check(len(fig.layout.annotations) == len(coms), 'inter-annotations', how)
    o.states += 1


_B = {}


def bicycle_of(spec):
    key = repr(spec)
    if key not in _B or spec[0] == 'dev':
        if spec[0] == 'dev':
            par = {k: v for k, v in dict(refs.BENCH, **spec[1]).items() if k != 'v'}
            if spec[2] == 'unc':
                par = unc(par)
            _B.pop('dev', None)
            return load_params(par)
        if spec[0] == 'fly':
            par = {k: v for k, v in refs.BENCH.items() if k != 'v'}
            par.update(mD=1.2, IDxx=0.03, IDyy=0.055)
            _B[key] = load_params(par)
        elif spec[0] == 'raw':
            _B[key] = raw_bike(spec[1])
        elif spec[0] == 'ride':
            b = shipped(spec[1])
            b.add_rider(spec[2])
            _B[key] = b
        elif spec[0] == 'conf':
            b = shipped(spec[1])
            b.add_rider(spec[2], reCalc=True)
            _B[key] = b
        elif spec[0] == 'ship':
            _B[key] = shipped(spec[1])
    return _B[key]


def raw_bike(name):
    import bicycleparameters as bp
    from mc.bikes import DATA
    if name not in _B:
        _B[name] = bp.Bicycle(name, pathToData=DATA, forceRawCalc=True)
    return _B[name]


def prepare():
    for n in ('Rigid', 'Browser'):
        raw_bike(n)


def run(case):
    try:
        return globals()['run_' + case['kind']](case)
    finally:
        plt().close('all')


CHUNK = 1
CASE_TIMEOUT = 600


def physical(p):
    """wheels and bodies have positive inertia"""
    for b in 'BH':
        if p['I%sxx' % b] <= 0 or p['I%szz' % b] <= 0 or p['I%sxx' % b]*p['I%szz' % b] <= p['I%sxz' % b]**2*(1 + 1e-9) or p['I%syy' % b] <= 0:
            return False
    return all(p['I%s%s' % (b, c)] > 0 for b in 'RF' for c in ('xx', 'yy'))


def cases(tier):
    deep = tier != 'quick'
    menu = {k: v for k, v in refs.W_MENU.items() if k not in ('g',)}
    menu['lam'] = [0.0, -0.35, 0.9]
    menu['rF'] = [0.1, 0.62, refs.BENCH['rR']]
    special = [{'lam': 0.0, 'rF': 0.3, 'rR': 0.3}, {'lam': 0.0, 'c': 0.0}, {'IBxx': 2.0, 'IBzz': 5.0, 'IBxz': 1.0, 'IByy': 5.5}, {'IHxx': 0.02, 'IHzz': 0.3, 'IHxz': 0.05, 'IHyy': 0.31},
               {'IHxz': 0.1, 'IHxx': 0.3, 'IHzz': 0.25, 'IHyy': 0.3}]
    for kind in ('W', 'FB', 'P'):
        m = menu if kind != 'P' else {k: v for k, v in refs.P_MENU.items() if k not in ('v', 'g')}
        devs = [{}] + (special if kind != 'P' else [{'alphaP': 0.0, 'alphaH': 2.0, 'alphaD': -2.0}, {'alphaP': 2.0}, {'alphaP': -0.7}, {'alphaP': 3.5, 'lP': 0.3}, {'kPaa': 0.2, 'kPbb': 0.3, 'kPyy': 0.3}])
        if kind != 'FB' or deep:
            devs += list(deviations(m, None, 1))
        if deep and kind != 'FB':
            keys = ['lam', 'c', 'w', 'rR', 'rF'] + (['xH', 'zH', 'IHxz', 'IBxz', 'mB'] if kind == 'W' else ['alphaP', 'alphaH', 'wP', 'lP', 'kPaa'])
            devs += [d for d in deviations({k: m[k] for k in keys}, None, 2) if len(d) == 2]
        uniq = []
        for d in devs:
            if d not in uniq:
                uniq.append(d)
        for c in chunks(uniq, 3):
            yield {'kind': 'sets', 'm': kind, 'pts': c}
        for d in [{}] + (devs[1:4] if deep else []):
            yield {'kind': 'sets', 'm': kind, 'pts': [d], 'subsets': True}
    every = [list(x) for x in itertools.product((True, False), repeat=3)]
    some = [[True, True, True], [False, True, False], [True, False, True]]
    items = []
    for i, d in enumerate([{}] + special + list(deviations(menu, None, 1))):
        p = dict(refs.BENCH, **d)
        if not physical(p):
            continue
        items.append([['dev', d, 'unc' if i % 3 == 1 else 'float'], every if deep or i < 6 else some[:1]])
    items += [[['fly'], every], [['ship', 'Browser'], every], [['ship', 'Crescendo'], some], [['ship', 'Pista'], some], [['ship', 'Yellow'], some],
              [['ride', 'Browser', 'Jason'], every], [['ride', 'Rigid', 'Jason'], some], [['conf', 'Browser', 'Jason'], every], [['conf', 'Rigid', 'Jason'], some], [['raw', 'Rigid'], every], [['raw', 'Browser'], every]]
    for c in chunks(items[::-1], 5):
        yield {'kind': 'bikes', 'items': c}
