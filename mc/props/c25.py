"""C25: the web app shows and analyses exactly the parameters in its tables.

The user interface is driven through the app's own HTTP endpoint exactly as the
browser does (callback requests with the inputs and the list of changed
properties).  The reference model of a session is (selected bicycle, three
tables, overlays, speed range); all sequences of user actions up to a depth are
executed and tables and both figures are judged after every one of them.
"""
import base64
import itertools
import json
import math
import os
import types

import numpy as np

from mc import refs
from mc.engine import REPO, Outcome, chunks
from mc.props import c22, c23

ID = 'C25'
LEVEL = 'model_checking'
TECHNIQUE = ('explicit-state exploration: all sequences of user actions up to a bound over {select, edit cell, toggle overlay, move slider, reset} executed on the real '
             'app through its HTTP callback endpoint; tables and figures compared with the reference session state after every action')
LEVEL_NOTE = ('All sequences of 3 (thorough 4) actions over 9 (thorough 11) actions after selecting a bicycle; every table cell x 2 (thorough 4) values on 1 (thorough 3) '
              'bicycles followed by reset; every shipped bicycle x overlays x speed ranges; all orders of the changed property list.')
RULE = 'a state is (bicycle, tables, overlays, speed range); a transition is a user action with the callbacks it triggers'
ASSUMPTIONS = ['the browser side (Dash renderer) sends the callbacks whose inputs changed, after the callbacks that fill those inputs']
CHUNK = 1
CASE_TIMEOUT = 1500

APPDATA = os.path.join(REPO, 'bicycleparameters', 'app-data')
BIKES = ['Benchmark', 'Browser', 'Browserins', 'Crescendo', 'Fisher', 'Pista', 'Rigid', 'Silver', 'Yellow', 'Yellowrev']
WHEEL = {'Radius [m]:': 'r%s', 'Mass [kg]:': 'm%s', 'Moment Ixx [kg*m²]:': 'I%sxx', 'Moment Iyy [kg*m²]:': 'I%syy'}
FRAME = {'Center of Mass X [m]:': 'x%s', 'Center of Mass Z [m]:': 'z%s', 'Total Mass [kg]:': 'm%s', 'Moment Ixx [kg*m²]:': 'I%sxx', 'Moment Iyy [kg*m²]:': 'I%syy',
         'Moment Izz [kg*m²]:': 'I%szz', 'Moment Ixz [kg*m²]:': 'I%sxz'}
GENERAL = {'Wheel Base [m]:': 'w', 'Trail [m]:': 'c', 'Steer Axis Tilt [degrees]:': 'lam', 'Gravity [N/kg]:': 'g'}
HEAD = {'Front Wheel [F]': 'F', 'Rear Wheel [R]': 'R', 'Rear Body [B]': 'B', 'Front Assembly [H]': 'H'}
TABLES = {'wheel-table': WHEEL, 'frame-table': FRAME, 'general-table': GENERAL}

_S = {}


def app():
    if 'app' not in _S:
        import bicycleparameters.app as A
        _S['app'] = A
        _S['client'] = A.app.server.test_client()
        cols = {}

        def walk(c):
            if isinstance(c, (list, tuple)):
                for x in c:
                    walk(x)
                return
            if getattr(c, 'id', None) in TABLES:
                cols[c.id] = {d['id']: d['name'] for d in c.columns}
            if getattr(c, 'id', None):
                _S.setdefault('comp', {})[c.id] = c
            if hasattr(c, 'children'):
                walk(c.children)
        walk(A.app.layout)
        _S['cols'] = cols
    return _S['app']


def prepare():
    app()


def stored(bike):
    """the app's parameter file, read by the harness: {name: value}"""
    out = {}
    with open(os.path.join(APPDATA, 'bicycles', bike, 'Parameters', bike + 'Benchmark.txt')) as f:
        for l in f:
            l = l.split('#')[0]
            if '=' in l:
                k, v = l.split('=')
                out[k.strip()] = float(v.split('+/-')[0])
    return out


def files():
    out = {}
    for d, _, fs in os.walk(APPDATA):
        for x in fs:
            p = os.path.join(d, x)
            with open(p, 'rb') as f:
                out[os.path.relpath(p, APPDATA)] = f.read()
    return out


def send(outputs, inputs, changed):
    """one callback request; inputs: [(id, property, value)]"""
    app()
    outs = [dict(id=i, property=p) for i, p in outputs]
    body = {'output': '..' + '...'.join('%s.%s' % o for o in outputs) + '..', 'outputs': outs,
            'inputs': [dict(id=i, property=p, value=v) for i, p, v in inputs], 'changedPropIds': changed, 'state': []}
    r = _S['client'].post('/_dash-update-component', data=json.dumps(body), content_type='application/json')
    if r.status_code != 200:
        raise RuntimeError('the app answered %d: %s' % (r.status_code, r.get_data(as_text=True)[:800]))
    return json.loads(r.get_data(as_text=True))['response']


def decode(x):
    if isinstance(x, dict):
        if set(x) >= {'dtype', 'bdata'}:
            a = np.frombuffer(base64.b64decode(x['bdata']), dtype=x['dtype'])
            return a.reshape([int(n) for n in str(x['shape']).split(',')]) if 'shape' in x else a
        return {k: decode(v) for k, v in x.items()}
    if isinstance(x, list):
        return [decode(v) for v in x]
    return x


def fill(bike, clicks, changed):
    r = send([('wheel-table', 'data'), ('frame-table', 'data'), ('general-table', 'data')],
             [('bike-dropdown', 'value', bike), ('reset-button', 'n_clicks', clicks)], changed)
    return {t: r[t]['data'] for t in TABLES}


def draw(s, changed):
    """the two figures for a session state"""
    import plotly.graph_objects as go
    r = send([('geometry-plot', 'figure'), ('eigen-plot', 'figure')],
             [('bike-dropdown', 'value', s['bike'])] + [(t, 'data', s['tables'][t]) for t in ('wheel-table', 'frame-table', 'general-table')]
             + [('geometry-checklist', 'value', s['opts']), ('range-slider', 'value', s['range'])], changed)
    return [go.Figure(decode(r[k]['figure'])) for k in ('geometry-plot', 'eigen-plot')]


def meaning(tables):
    """{parameter: value} as a reader of the tables understands them (degrees converted)"""
    app()
    out = {}
    for t, rows in tables.items():
        for row in rows:
            pat = TABLES[t][row['label']]
            for cid, name in _S['cols'][t].items():
                if cid == 'label':
                    continue
                k = pat % HEAD[name] if '%s' in pat else pat
                v = float(row[cid])
                out[k] = math.radians(v) if k == 'lam' else v
    return out


def cell_of(par):
    """(table, row index, column id) of a parameter"""
    app()
    for t, pats in TABLES.items():
        for i, (label, pat) in enumerate(pats.items()):
            for cid, name in _S['cols'][t].items():
                if cid != 'label' and (pat % HEAD[name] if '%s' in pat else pat) == par:
                    return t, label, cid
    raise KeyError(par)


PARS = ['rF', 'mF', 'IFxx', 'IFyy', 'rR', 'mR', 'IRxx', 'IRyy', 'w', 'c', 'lam', 'g', 'xB', 'zB', 'mB', 'IBxx', 'IByy', 'IBzz', 'IBxz',
        'xH', 'zH', 'mH', 'IHxx', 'IHyy', 'IHzz', 'IHxz']


def close(a, b, rel=1e-12):
    return abs(a - b) <= rel*(1 + abs(b))


def judge_tables(o, tables, want, how):
    got = meaning(tables)
    o.check(set(got) == set(PARS), 'table-cells', lambda: '%s %r' % (how, sorted(set(got) ^ set(PARS))))
    for k in PARS:
        o.check(close(got.get(k, math.nan), want[k]), 'table-value', lambda: '%s %s %r != %r' % (how, k, got.get(k), want[k]))


def judge_figures(o, figs, s, how):
    p = dict(s['par'])
    for k, v in stored(s['bike']).items():  # separately measured fork and handlebar are drawn, too; the tables do not have them
        if k[:2] in ('mG', 'mS', 'xG', 'xS', 'zG', 'zS', 'IG', 'IS'):
            p[k] = v
    geo, eig = figs
    base = types.SimpleNamespace(parameters={'Benchmark': p}, hasRider=False, bicycleName=s['bike'])
    b, pend, coms = c23.want_bike(base, False, 'centers' in s['opts'], 'ellipse' in s['opts'] and physical(p))
    if 'ellipse' in s['opts'] and not physical(p):
        o.trivial += 1
    else:
        c23.judge_plotly(o, geo, base, b, pend, coms, 'geometry ' + how)
    tr = list(eig.data)
    lo, hi = s['range']
    o.check(len(tr) == 8 and sorted(t.name for t in tr) == sorted('%s %s' % (a, m) for a in ('Re', 'Im') for m in ('Weave', 'Weave', 'Capsize', 'Castering')), 'eigen-curves', how)
    xs = [np.asarray(t.x, float) for t in tr]
    if not xs:
        return
    x = xs[0]
    o.check(all(c.shape == x.shape and np.allclose(c, x, atol=1e-12) for c in xs) and np.all(np.diff(x) > 0), 'eigen-speeds', how)
    o.check(abs(x[0] - lo) < 1e-9 and abs(x[-1] - hi) < 1e-9, 'eigen-range', lambda: '%s %r..%r' % (how, x[0], x[-1]))
    o.check(lo == hi or len(x) >= 10, 'eigen-resolution', how)
    re_ = np.array([np.asarray(t.y, float) for t in tr if t.name.startswith('Re')])
    im_ = np.array([np.asarray(t.y, float) for t in tr if t.name.startswith('Im')])
    full = dict(p)
    evs = [np.linalg.eigvals(refs.whipple_ss(full, v=float(v), g=p['g'])[0]) for v in x]
    mx = np.array([np.max(e.real) for e in evs])
    if re_.shape == im_.shape == (4, len(x)):
        bad = None
        for k, ev in enumerate(evs):
            t = 1e-6*(1 + np.max(np.abs(ev)))
            t += 3e-8*np.max(np.abs(ev))**.5 if near_double(ev) else 0.0
            if near_double(ev):
                t = max(t, 1e-4*(1 + np.max(np.abs(ev))))
            if not (np.allclose(np.sort(re_[:, k]), np.sort(ev.real), atol=t, rtol=0) and np.allclose(np.sort(im_[:, k]), np.sort(np.abs(ev.imag)), atol=t, rtol=0)):
                bad = (x[k], re_[:, k], im_[:, k], ev)
                break
        o.check(bad is None, 'eigen-values', lambda: '%s %r' % (how, bad))
    else:
        o.fail('eigen-shape', how)
    rects = [tuple(sorted((float(r.x0), float(r.x1)))) for r in eig.layout.shapes if r.type == 'rect']
    texts = [a.text for a in eig.layout.annotations]
    on = 'stability' in s['opts']
    if np.min(np.abs(mx)) > 1e-9:
        reg = [r for r in c22.runs(mx < 0, x) if r[1] - r[0] > 1.01e-4]
        o.check(c22.same_runs(rects, reg if on else []), 'eigen-shade', lambda: '%s %r want %r' % (how, rects, reg))
        o.check(any('No stab' in (t or '') for t in texts) == (on and not reg), 'eigen-no-region', lambda: how + repr(texts))


def near_double(ev):
    return min(abs(a - b) for a, b in itertools.combinations(ev, 2)) < 1e-3*(1 + np.max(np.abs(ev)))


def physical(p):
    for q in c23.parts_of(p):
        I = c23.part_tensor(p, q)
        if np.min(np.linalg.eigvalsh(I)) <= 0:
            return False
    return True


class Session(object):
    """reference model of the page, driving the real callbacks"""

    def __init__(self, o):
        self.o = o
        self.s = {'bike': None, 'tables': None, 'par': None, 'opts': ['centers'], 'range': [0, 5]}
        self.clicks = 0

    def copy(self):
        n = Session(self.o)
        n.s = json.loads(json.dumps(self.s))
        n.clicks = self.clicks
        return n

    def do(self, ev, how, order=0):
        o, s = self.o, self.s
        T = ['wheel-table.data', 'frame-table.data', 'general-table.data']
        kind = ev[0]
        if kind == 'select':
            s['bike'] = ev[1]
            s['tables'] = fill(ev[1], self.clicks, ['bike-dropdown.value'])
            s['par'] = {k: v for k, v in stored(ev[1]).items() if k in PARS}
            judge_tables(o, s['tables'], s['par'], how)
            changed = [['bike-dropdown.value'] + T, T + ['bike-dropdown.value'], T, ['bike-dropdown.value'], []][order]
        elif kind == 'reset':
            self.clicks += 1
            s['tables'] = fill(s['bike'], self.clicks, ['reset-button.n_clicks'])
            s['par'] = {k: v for k, v in stored(s['bike']).items() if k in PARS}
            judge_tables(o, s['tables'], s['par'], how)
            changed = [T, T[::-1], T[:1], T[1:2], T[2:]][order]
        elif kind == 'edit':
            t, label, cid = cell_of(ev[1])
            row = [r for r in s['tables'][t] if r['label'] == label][0]
            row[cid] = ev[2]
            s['par'][ev[1]] = math.radians(ev[2]) if ev[1] == 'lam' else float(ev[2])
            changed = [[t + '.data'], T, T[::-1], [t + '.data', 'geometry-checklist.value'], T[:2] + ['range-slider.value']][order]
        elif kind == 'toggle':
            s['opts'] = [x for x in s['opts'] if x != ev[1]] if ev[1] in s['opts'] else s['opts'] + [ev[1]]
            changed = ['geometry-checklist.value']
        elif kind == 'slide':
            s['range'] = list(ev[1])
            changed = ['range-slider.value']
        sent = json.dumps(s['tables'], sort_keys=True)
        figs = draw(s, changed)
        o.check(json.dumps(s['tables'], sort_keys=True) == sent, 'tables-changed', how)
        judge_figures(o, figs, s, how)
        o.transitions += 1
        o.validated += 1
        o.key(json.dumps([s['bike'], s['par'], sorted(s['opts']), s['range']], sort_keys=True))
        o.states = len(o.keys)


ACTIONS = [('select', 'Benchmark'), ('select', 'Rigid'), ('edit', 'lam', 30.5), ('edit', 'mB', 50), ('edit', 'rF', 0.3), ('toggle', 'ellipse'), ('toggle', 'stability'),
           ('slide', [-5, 0]), ('reset',)]
MORE = [('toggle', 'centers'), ('edit', 'IHxz', -0.2)]


def run_seq(case):
    o = Outcome()
    before = files()
    root = Session(o)
    first = case['first']

    def walk(ses, path, depth):
        if depth == 0:
            return
        for ev in case['actions']:
            n = ses.copy()
            n.do(ev, repr(path + [ev]))
            walk(n, path + [ev], depth - 1)
    path = []
    for ev in first:
        root.do(ev, repr(path + [ev]))
        path.append(ev)
    walk(root, path, case['depth'])
    o.check(files() == before, 'stored-data', repr(case))
    return o


def run_list(case):
    """given sequences, executed one after the other"""
    o = Outcome()
    before = files()
    for seq, order in case['seqs']:
        s = Session(o)
        for i, ev in enumerate(seq):
            s.do(ev, repr(seq[:i + 1]) + ' order %d' % order, order)
    o.check(files() == before, 'stored-data', repr(case))
    return o


def run_page(case):
    """the layout: the components the callbacks work on"""
    o = Outcome()
    A = app()
    comp = _S['comp']
    for i in list(TABLES) + ['geometry-plot', 'eigen-plot', 'bike-dropdown', 'geometry-checklist', 'range-slider', 'reset-button']:
        o.check(i in comp, 'component', i)
    have = sorted(os.listdir(os.path.join(APPDATA, 'bicycles')))
    opts = comp['bike-dropdown'].options
    vals = [d['value'] for d in opts]
    o.check(set(vals) <= set(have) and len(set(vals)) == len(vals) and comp['bike-dropdown'].value in vals, 'dropdown-values', repr(vals))
    for d in opts:
        o.check(d['label'].split()[0] == d['value'], 'dropdown-labels', repr(d))
    chk = {d['value']: d['label'] for d in comp['geometry-checklist'].options}
    o.check(set(chk) == {'centers', 'ellipse', 'stability'} and 'Center' in chk['centers'] and 'Inertia' in chk['ellipse'] and 'tability' in chk['stability'], 'checklist', repr(chk))
    o.check(set(comp['geometry-checklist'].value) <= set(chk), 'checklist-default', repr(comp['geometry-checklist'].value))
    sl = comp['range-slider']
    o.check(sl.min <= sl.value[0] <= sl.value[1] <= sl.max, 'slider', repr(sl.value))
    for m, v in (sl.marks or {}).items():
        o.check(float(v['label'] if isinstance(v, dict) else v) == float(m), 'slider-marks', repr((m, v)))
    for t in TABLES:
        o.check(comp[t].editable is True, 'editable', t)
        o.check(all(c.get('type') == 'numeric' for c in comp[t].columns if c['id'] != 'label'), 'numeric', t)
    # the page as first opened
    s = Session(o)
    s.s['opts'] = list(comp['geometry-checklist'].value)
    s.s['range'] = list(sl.value)
    for order in range(5):
        s.copy().do(('select', comp['bike-dropdown'].value), 'first page', order)
    o.check(A.app.server is A.server, 'server', '')
    return o


def run(case):
    return {'seq': run_seq, 'list': run_list, 'page': run_page}[case['kind']](case)


VALUES = {k: [1.5, 7] for k in PARS}
VALUES.update({'rF': [0.25, 1], 'rR': [0.4, 1], 'w': [0.8, 2], 'c': [0.0, -0.05, 0.2, 1], 'lam': [0, 10.25, 45, -5.5], 'g': [1.62, 20, 9.81, 3], 'xB': [0.0, 0.6, -1, 0.25],
               'zB': [-1.5, -1, -0.3, -2], 'xH': [0.5, 1, 1.2, 0.0], 'zH': [-0.2, -1, -1.3, -0.4], 'IBxz': [0.0, 0.4, -0.3, 0.01], 'IHxz': [0.0, 0.002, -0.003, 0.01]})


def cases(tier):
    deep = tier != 'quick'
    yield {'kind': 'page'}
    combos = [list(c) for n in range(4) for c in itertools.combinations(['centers', 'ellipse', 'stability'], n)]
    # every bicycle, every way the browser may list what changed
    for b in BIKES:
        seqs = []
        for order in range(5):
            seqs.append(([('select', b)], order))
        for c in combos if deep else combos[1::3]:
            seqs.append(([('select', b)] + [('toggle', x) for x in c], 0))
        for r in ([-45, -40], [-20, 20], [0, 0], [5, 45], [40, 45], [-45, 45]) if deep else ([0, 10],):
            seqs.append(([('select', b), ('toggle', 'stability'), ('slide', r)], 0))
        yield {'kind': 'list', 'seqs': seqs}
    yield {'kind': 'list', 'seqs': [([('select', 'Benchmark'), ('slide', r)], 0) for r in ([-45, -40], [-20, 20], [0, 0], [5, 5], [-45, 45])]}
    for e in (('edit', 'lam', 30.5), ('edit', 'mB', 50), ('edit', 'rF', 0.3)):
        yield {'kind': 'list', 'seqs': [([('select', 'Browser'), e], order) for order in range(5)]}
    # every cell
    for b in (['Benchmark', 'Browser', 'Yellow'] if deep else ['Browser']):
        for block in chunks([([('select', b), ('edit', k, v)] + ([('reset',)] if i else [('toggle', 'ellipse')]), 2 if i else 0) for k in PARS for i, v in
                             enumerate(VALUES[k][:4 if deep else 2])], 6):
            yield {'kind': 'list', 'seqs': block}
    if deep:  # pairs of cells
        for block in chunks([([('select', 'Pista'), ('edit', k, VALUES[k][0]), ('edit', q, VALUES[q][1])], 0) for k, q in itertools.permutations(PARS, 2)], 20):
            yield {'kind': 'list', 'seqs': block}
    acts = ACTIONS + (MORE if deep else [])
    for b in (['Browser', 'Yellowrev'] if deep else ['Browser']):
        for ev in acts:
            if deep:
                for ev2 in acts:
                    yield {'kind': 'seq', 'first': [('select', b), ev, ev2], 'actions': acts, 'depth': 2}
            else:
                yield {'kind': 'seq', 'first': [('select', b), ev], 'actions': acts, 'depth': 2}
