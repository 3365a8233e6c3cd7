"""C10: parameter sets accept only complete float dictionaries and survive saving.

Enumerated: every set type x every single and pair of missing/ill-typed
parameters; every set type and conversion x float value classes x every
sequence of YAML/INI writes over two paths up to a length, judged by reading
the files back with the library and with independent parsers.
"""
import itertools
import os
import re
import shutil
import struct

import numpy as np
import yaml
from uncertainties import ufloat

from mc import refs
from mc.bikes import scratch
from mc.engine import Outcome, chunks

from bicycleparameters import parameter_sets as ps

ID = 'C10'
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of missing/ill-typed parameter combinations and explicit-state exploration of write/read histories with a reference '
             'file-state model, executed on the real code')
LEVEL_NOTE = ('All single and pairwise missing/ill-typed parameters of 5 set types (11 ill types); all value classes for every parameter; all write histories up '
              'to length 3 (thorough 4) over 2 paths x 2 formats x several sets.')
RULE = 'one evaluation = one constructor call or one written file judged; states are file-system contents after each step'
ASSUMPTIONS = ['finite values; a dictionary may hold additional entries']

KINDS = ['Meijaard2007', 'Meijaard2007WithFeedback', 'Moore2019', 'Moore2012', 'MooreRiderLean2012']
CLS = {k: getattr(ps, k + 'ParameterSet') for k in KINDS}
RIDER = {'Meijaard2007', 'Meijaard2007WithFeedback', 'Moore2012'}


def base(kind):
    if kind == 'Moore2012':
        s = ps.Meijaard2007ParameterSet(dict(refs.MEIJ), True).to_parameterization('Moore2012')
        return {k: float(s.parameters[k]) for k in CLS[kind].par_strings}
    return dict({'Meijaard2007': refs.MEIJ, 'Meijaard2007WithFeedback': refs.FB, 'Moore2019': refs.M2019,
                 'MooreRiderLean2012': refs.LEAN}[kind])


REQUIRED = {
    'Meijaard2007': set(refs.MEIJ), 'Meijaard2007WithFeedback': set(refs.FB), 'Moore2019': set(refs.M2019),
    'MooreRiderLean2012': set(refs.LEAN),
    'Moore2012': {'d1', 'd2', 'd3', 'g', 'ic11', 'ic22', 'ic31', 'ic33', 'id11', 'id22', 'ie11', 'ie22', 'ie31', 'ie33', 'if11',
                  'if22', 'l1', 'l2', 'l3', 'l4', 'mc', 'md', 'me', 'mf', 'rf', 'rr', 'v'}}


def symbol(tex):
    """LaTeX symbol -> the name it spells"""
    for a, b in ((r'\dot{\delta}', 'deld'), (r'\dot{\phi}', 'phid'), (r'\delta', 'del'), (r'\lambda', 'lam')):
        tex = tex.replace(a, b)
    return re.sub(r'[\\_{}()$ ]', '', tex).lower()


def construct(kind, p, rider=True):
    return CLS[kind](p, rider) if kind in RIDER else CLS[kind](p)


BAD = {'int': 1, 'npint': np.int64(2), 'str': '1.0', 'none': None, 'bool': True, 'list': [1.0], 'array': np.array([1.0, 2.0]),
       'complex': 1j, 'float32': np.float32(1.0), 'ufloat': ufloat(1.0, 0.1), 'zero-int': 0}
MISSING = 'missing'


def run_valid(case):
    o = Outcome()
    kind = case['kind']
    for combo in case['combos']:
        p = base(kind)
        for k, how in combo:
            if how == MISSING:
                del p[k]
            elif how == 'npfloat':
                p[k] = np.float64(p[k])
            else:
                p[k] = BAD[how]
        bad = [k for k, how in combo if how != 'npfloat']
        keys = list(p)
        try:
            s = construct(kind, p)
            err = None
        except Exception as e:
            err = e
        o.states += 1
        msg = lambda: '%s %r: %r' % (kind, combo, err)
        if bad:
            if not o.check(err is not None, 'accepted-invalid', msg):
                continue
            words = str(err).replace("'", ' ').replace('"', ' ').replace(',', ' ').replace('.', ' ').replace(':', ' ').split()
            o.check(any(k in words for k in bad), 'error-does-not-name', msg)
        else:
            o.check(err is None, 'rejected-valid', msg)
            if err is None:
                o.check(s.parameterization == kind and all(s.parameters[k] == p[k] for k in REQUIRED[kind]), 'parameters', msg)
        o.check(list(p) == keys, 'argument-changed', msg)
    return o


# ------------------------------------------------------------- file contents
def bits(x):
    return struct.pack('>d', x)


HARD = [0.0, -0.0, 1.0, -1.0, 0.1, 1.0/3.0, 1e-5, -2.5e-17, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 1e16, 1e22,
        123456789.123456789, -9007199254740993.0, 1e-7, 1e7, 9.81, np.nextafter(1.0, 2.0), 4.35, 1e100, -1e-100, 12345678.0, 100000.0]


def check_yaml(o, path, kind, p, rider, sig, msg):
    with open(path) as f:
        text = f.read()
    try:
        d = yaml.load(text, Loader=yaml.SafeLoader)
    except yaml.YAMLError as e:
        o.check(False, sig + ':yaml-unreadable', lambda: '%s %r\n%s' % (msg(), e, text[:300]))
        return
    o.check(d.get('parameterization') == kind, sig + ':yaml-parameterization', lambda: '%s %r' % (msg(), d.get('parameterization')))
    v = d.get('values')
    ok = isinstance(v, dict) and set(v) == set(p) and all(isinstance(v[k], float) and bits(v[k]) == bits(float(p[k])) for k in p)
    o.check(ok, sig + ':yaml-values', lambda: '%s %r' % (msg(), [(k, p[k], (v or {}).get(k)) for k in p if (v or {}).get(k) != p[k]]))
    try:
        s = CLS[kind]._from_yaml(path)
    except Exception as e:
        o.check(False, sig + ':from-yaml', lambda: '%s %r' % (msg(), e))
        return
    o.check(s.parameterization == kind and set(s.parameters) == set(p) and all(bits(s.parameters[k]) == bits(float(p[k])) for k in p),
            sig + ':reload-values', lambda: '%s %r' % (msg(), s.parameters))
    if kind in RIDER:
        o.check(s.includes_rider is rider, sig + ':reload-rider', lambda: '%s %r' % (msg(), s.includes_rider))


def check_ini(o, path, p, sig, msg):
    with open(path) as f:
        lines = [l for l in f.read().split('\n') if l.strip()]
    d = {}
    for l in lines:
        k, _, v = l.partition('=')
        d.setdefault(k.strip(), []).append(v.strip())
    ok = set(d) == set(p) and all(len(v) == 1 for v in d.values())
    if not o.check(ok, sig + ':ini-keys', lambda: '%s %r' % (msg(), sorted(d))):
        return
    for k in p:
        x, t = float(p[k]), d[k][0]
        y = float(t)
        dec = len(t.partition('.')[2]) if 'e' not in t.lower() else 99
        o.check(abs(y - x) <= 5.1e-16 + 1e-15*abs(x) and dec >= 15, sig + ':ini-value', lambda: '%s %s %r %r' % (msg(), k, x, t))


def run_values(case):
    o = Outcome()
    kind = case['kind']
    p0 = base(kind)
    root = scratch('set')
    try:
        for n, val in enumerate(case['vals']):
            # every parameter takes the value in turn, in pairs with its negative
            keys = sorted(p0)
            for i, k in enumerate(keys):
                p = dict(p0)
                p[k] = val
                p[keys[(i + 7) % len(keys)]] = -val/3.0
                rider = bool((i + n) % 2)
                s = construct(kind, {a: (np.float64(b) if i % 3 == 0 else b) for a, b in p.items()}, rider)
                path = os.path.join(root, 'f.yml')
                s.to_yaml(path)
                check_yaml(o, path, kind, p, rider, 'values', lambda: '%s %s=%r' % (kind, k, val))
                s.to_ini(path)
                check_ini(o, path, p, 'values', lambda: '%s %s=%r' % (kind, k, val))
                o.check({a: bits(b) for a, b in s.parameters.items()} == {a: bits(b) for a, b in p.items()}, 'set-changed', '')
                o.states += 1
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return o


# -------------------------------------------------------------- histories
def sets():
    """name -> (kind, set)"""
    out = {}
    for rider in (True, False):
        m = ps.Meijaard2007ParameterSet(dict(refs.MEIJ), rider)
        out['W%d' % rider] = m
        out['W>FB%d' % rider] = m.to_parameterization('Meijaard2007WithFeedback')
        out['W>M12%d' % rider] = m.to_parameterization('Moore2012')
    p19 = ps.Moore2019ParameterSet(dict(refs.M2019))
    out['P'] = p19
    out['P>W'] = p19.to_parameterization('Meijaard2007')
    out['P>FB'] = p19.to_parameterization('Meijaard2007WithFeedback')
    out['P>W>M12'] = out['P>W'].to_parameterization('Moore2012')
    out['FB'] = ps.Meijaard2007WithFeedbackParameterSet(dict(refs.FB), False)
    out['FB>M12'] = out['FB'].to_parameterization('Moore2012')
    out['L'] = ps.MooreRiderLean2012ParameterSet(dict(refs.LEAN))
    return out


SETNAMES = ['W1', 'W0', 'W>FB1', 'W>FB0', 'W>M121', 'W>M120', 'P', 'P>W', 'P>FB', 'P>W>M12', 'FB', 'FB>M12', 'L']


def run_hist(case):
    o = Outcome()
    S = sets()
    root = scratch('set')
    state = {}
    try:
        for i, (name, fmt, path) in enumerate(case['h']):
            s = S[name]
            keep = dict(s.parameters)
            full = os.path.join(root, path)
            (s.to_yaml if fmt == 'yaml' else s.to_ini)(full)
            state[path] = (fmt, s)
            o.transitions += 1
            o.check(s.parameters == keep, 'set-changed', repr(case))
            o.check(sorted(os.listdir(root)) == sorted(state), 'other-files', lambda: '%r %r' % (case, os.listdir(root)))
            for q, (f, t) in state.items():
                msg = lambda: 'history %r step %d file %s' % (case['h'], i, q)
                if f == 'yaml':
                    check_yaml(o, os.path.join(root, q), t.parameterization, {k: float(v) for k, v in t.parameters.items()},
                               getattr(t, 'includes_rider', None), 'history', msg)
                else:
                    check_ini(o, os.path.join(root, q), t.parameters, 'history', msg)
            o.states += 1
            o.key(repr(sorted((q, f, t.parameterization) for q, (f, t) in state.items())))
        o.validated += 1
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return o


def run_reload(case):
    """write, read, write again: a fixed point, also across conversions"""
    o = Outcome()
    root = scratch('set')
    try:
        s = sets()[case['set']]
        prev = None
        for i in range(3):
            path = os.path.join(root, 'a%d.yml' % (i % 2))
            s.to_yaml(path)
            with open(path) as f:
                text = yaml.load(f, Loader=yaml.SafeLoader)
            if prev is not None:
                o.check(text == prev, 'not-a-fixed-point', case['set'])
            prev = text
            s = CLS[s.parameterization]._from_yaml(path)
            html = s._repr_html_() if hasattr(s, '_repr_html_') else None
            if html is not None:
                rows = {}
                for r in html.split('<tr>')[1:]:
                    cells = [c.split('</td>')[0] for c in r.split('<td>')[1:]]
                    if len(cells) == 2:
                        rows.setdefault(cells[0], []).append(cells[1])
                exp = {}
                for k, tex in s.par_strings.items():
                    exp.setdefault(r'\(%s\)' % tex, []).append('%.3f' % s.parameters[k])
                o.check(rows == exp, 'summary-table', lambda: '%r %r' % (rows, exp))
                for k in s.par_strings:
                    own = [r for t, r in rows.items() if symbol(t) == k.replace('_', '').lower()]
                    o.check(own == [['%.3f' % s.parameters[k]]], 'summary-symbol', lambda: '%s %s %r' % (case['set'], k, own))
                o.check(set(s.par_strings) == REQUIRED[s.parameterization] and sum(map(len, rows.values())) == len(s.par_strings), 'summary-rows', case['set'])
            o.states += 1
        for t in KINDS:
            try:
                c = s.to_parameterization(t)
            except ValueError:
                continue
            path = os.path.join(root, 'c.yml')
            c.to_yaml(path)
            check_yaml(o, path, t, {k: float(v) for k, v in c.parameters.items()}, getattr(c, 'includes_rider', None), 'converted',
                       lambda: '%s -> %s' % (case['set'], t))
            c.to_ini(path)
            check_ini(o, path, c.parameters, 'converted', lambda: '%s -> %s' % (case['set'], t))
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return o


def run_shipped(case):
    """shipped YAML files read as what they say"""
    o = Outcome()
    path = case['path']
    with open(path) as f:
        d = yaml.load(f, Loader=yaml.SafeLoader)
    kind = d['parameterization']
    if kind in CLS and all(isinstance(v, float) for v in d['values'].values()):
        s = CLS[kind]._from_yaml(path)
        o.check(s.parameters == d['values'] and s.parameterization == kind, 'shipped', path)
        if kind in RIDER:
            o.check(s.includes_rider == d['rider'], 'shipped-rider', path)
    o.evals += 1
    return o


def run(case):
    return {'valid': run_valid, 'values': run_values, 'hist': run_hist, 'reload': run_reload, 'shipped': run_shipped}[case['k']](case)


def cases(tier):
    from mc.engine import REPO
    q = tier == 'quick'
    hows = [MISSING, 'npfloat'] + list(BAD)
    for kind in KINDS:
        yield {'k': 'valid', 'kind': kind, 'combos': [[]]}
        names = sorted(REQUIRED[kind])
        for blk in chunks([[(k, h)] for k in names for h in hows], 100):
            yield {'k': 'valid', 'kind': kind, 'combos': blk}
    for name in SETNAMES:
        yield {'k': 'reload', 'set': name}
    for d, _, fs in os.walk(os.path.join(REPO, 'data')):
        for f in sorted(fs):
            if f.endswith(('.yml', '.yaml')):
                yield {'k': 'shipped', 'path': os.path.join(d, f)}
    for kind in KINDS:
        for blk in chunks(HARD, 2):
            yield {'k': 'values', 'kind': kind, 'vals': [float(x) for x in blk]}
    ph = [MISSING, 'int', 'str', 'none', 'npfloat'] if q else hows
    for kind in KINDS:
        names = sorted(REQUIRED[kind])
        gen = ([(a, h), (b, g)] for a, b in itertools.combinations(names, 2) for h in ph for g in ph)
        for blk in chunks(gen, 500):
            yield {'k': 'valid', 'kind': kind, 'combos': blk}
    ops = [(s, f, p) for s in SETNAMES for f in ('yaml', 'ini') for p in ('a', 'b')]
    for n in (1, 2):
        for h in itertools.product(ops, repeat=n):
            if n == 2 and h[0][2] != 'a':
                continue
            yield {'k': 'hist', 'h': [list(x) for x in h]}
    small = [(s, f, p) for s in (['W1', 'P>FB', 'L'] if q else ['W1', 'W0', 'P>FB', 'L', 'FB>M12', 'P']) for f in ('yaml', 'ini') for p in ('a', 'b')]
    for h in itertools.product(small, repeat=3):
        if h[0][2] == 'a':
            yield {'k': 'hist', 'h': [list(x) for x in h]}
    if not q:
        tiny = [(s, f, p) for s in ('W0', 'P>FB') for f in ('yaml', 'ini') for p in ('a', 'b')]
        for h in itertools.product(tiny, repeat=4):
            yield {'k': 'hist', 'h': [list(x) for x in h]}
