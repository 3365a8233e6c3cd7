"""C21: parameter tables show every bicycle's values, rounded to their uncertainty.

All small sets of bicycles (variables present or missing, plain, exact or
uncertain values over a grid of magnitudes) are tabulated by the real code; the
text is parsed by an independent grid reader and every cell judged.
"""
import itertools
import math
import os
import re
from decimal import Decimal

import numpy as np
from uncertainties import ufloat

from mc import measure, refs
from mc.bikes import Tree, load_params, nom, sd, shipped
from mc.engine import Outcome, chunks, snap

from bicycleparameters import tables

ID = 'C21'
LEVEL = 'exploration'
TECHNIQUE = ('exhaustive enumeration of small sets of bicycles x variable presence patterns x value/uncertainty magnitudes x options through the real table code, '
             'judged by an independent grid table reader and rounding oracle; all short sequences of table operations')
LEVEL_NOTE = ('Every value of a 13 x 16 (thorough 25 x 28) magnitude grid; every presence/kind pattern of 3 variables in 1..3 bicycles; all pairs and triples of '
              'shipped bicycles; all sequences of 3 table operations.')
RULE = 'one evaluation = one cell, structure or unchangedness judgement'
ASSUMPTIONS = ['a table has at least one variable', 'variables are the documented measurement and benchmark parameters']

VALS = [0.0, 1.0, -1.0, 0.05, 123.456, -0.00123, 1e5, 12.5, 0.25, 2.4563752289999, 9.9999, -99.96, 1e-7]
MORE = [3.0, -0.5, 0.049999, 1234567.0, 1e-12, 45.0, 0.95, 949.0, -15.0, 2e10, 0.15, 7.77]
SDS = [3.7e-12, None, 0.0, 0.0003797273827, 0.1, 0.0949, 0.0951, 0.0996, 0.96, 1.0, 9.6, 15.0, 150.0, 1e-9, 1e3, 0.05, 3.2e-5]
MORESD = [0.5, 2.5, 0.35, 0.01, 0.001, 100.0, 0.0149, 1e-15, 9.4999, 95.0, 99.9, 0.25]


def read_grid(text):
    """cells of a reStructuredText grid table with spanning cells in the first row"""
    lines = text.split('\n')
    while lines and not lines[-1].strip():
        lines.pop()
    width = len(lines[0])
    if any(len(l) != width for l in lines):
        return None, 'lines of different length'
    rows = []
    for i, l in enumerate(lines):
        if i % 2 == 0:
            if not re.match(r'^\+([-=]+\+)+$', l):
                return None, 'bad rule line %r' % l
        else:
            if not (l[0] == '|' and l[-1] == '|'):
                return None, 'bad row %r' % l
            above, below = lines[i - 1], lines[i + 1] if i + 1 < len(lines) else ''
            cols = [k for k in range(width) if above[k] == '+'] if i != 1 else None
            inner = [k for k in range(width) if (above[k] == '+' if i == 1 else below[k] == '+')]
            if not below:
                return None, 'no rule below %r' % l
            if any(l[k] != '|' for k in inner):
                return None, 'misaligned %r' % l
            cells = [l[a + 1:b] for a, b in zip(inner, inner[1:])]
            if any(c and (c[0] != ' ' or c[-1] != ' ') for c in cells):
                return None, 'no padding %r' % l
            rows.append([c.strip() for c in cells])
    # column borders: the rules of the body are all alike and include those of the first row
    borders = [{k for k in range(width) if l[k] == '+'} for l in lines[::2]]
    if any(b != borders[1] for b in borders[1:]) or not borders[0] <= borders[1]:
        return None, 'borders differ'
    kinds = ['=' if '=' in l else '-' for l in lines[::2]]
    if any('=' in l and '-' in l for l in lines[::2]):
        return None, 'mixed rule'
    return (rows, kinds), None


def decimals(text):
    return len(text.split('.')[1]) if '.' in text else 0


def judge_cell(o, value, val, sig, how):
    """value: number, None when missing"""
    msg = lambda: '%s: %r shown as %r %r' % (how, value, val, sig)
    if value is None:
        o.check(val == 'NA' and sig == 'NA', 'missing', msg)
        return
    if not hasattr(value, 'nominal_value'):
        o.check(sig == 'NA', 'plain-sigma', msg)
        try:
            o.check(abs(float(val) - value) <= 1e-12*abs(value), 'plain-value', msg)
        except ValueError:
            o.fail('plain-text', msg())
        return
    n, s = value.nominal_value, value.std_dev
    try:
        v, u = float(val), float(sig)
    except ValueError:
        o.fail('not-a-number', msg())
        return
    if s == 0:
        o.check(u == 0 and abs(v - n) <= 1e-12*abs(n), 'exact', msg)
        return
    digit = -Decimal(repr(s)).adjusted()
    step = 10.0**(-digit)
    o.check(abs(u - s) <= 0.5*step*(1 + 1e-9) and u > 0, 'sigma-rounding', msg)
    o.check(abs(v - n) <= 0.5*step*(1 + 1e-9) + 1e-13*abs(n), 'value-rounding', msg)
    if 'e' not in val.lower() and 'e' not in sig.lower():
        d = max(digit, 0)
        o.check(decimals(val) in (d, max(d - 1, 0)) or (d == 0 and val.endswith('.0')), 'value-decimals', msg)
        o.check(decimals(sig) == decimals(val), 'decimals-agree', msg)
    # a multiple of the leading digit's place
    o.check(abs(v/step - round(v/step)) <= 1e-6*max(1.0, abs(v/step)*1e-6) and abs(u/step - round(u/step)) < 1e-6, 'multiple', msg)


def plain(latex):
    t = re.sub(r'[_{}^\\]', '', latex).replace('lambda', 'lam')
    return t.lower()


def judge_table(o, source, latex, bikes, how, folder):
    before = [snap(b.parameters) for b in bikes]
    names = []
    for b in bikes:
        for k in b.parameters[source]:
            if k not in names:
                names.append(k)
    tab = tables.Table(source, latex, bikes)
    msg = lambda: '%s %s latex=%r' % (how, source, latex)
    o.check(sorted(tab.allVariables) == sorted(names) and len(tab.tableData) == len(names), 'variables', msg)
    order = list(tab.allVariables)
    o.check([v.lower() for v in order] == sorted(v.lower() for v in order), 'sorted', msg)
    data = [list(r) for r in tab.tableData]
    for var, row in zip(order, data):
        o.check(len(row) == 1 + 2*len(bikes), 'row-length', msg)
        if latex:
            o.check(plain(row[0]) == var.lower().replace('lambda', 'lam'), 'latex-name', lambda: msg() + ' %r %r' % (var, row[0]))
        else:
            o.check(row[0] == var, 'row-name', msg)
        for i, b in enumerate(bikes):
            judge_cell(o, b.parameters[source].get(var), row[1 + 2*i], row[2 + 2*i], '%s %s of %s' % (msg(), var, b.bicycleName))
    if latex:
        o.check(len({r[0] for r in data}) == len(data), 'latex-distinct', msg)
    text = tab.create_rst_table()
    o.check([list(r) for r in tab.tableData] == data, 'data-changed', msg)
    path = os.path.join(folder, 'table.rst')
    again = tab.create_rst_table(path)
    with open(path) as f:
        written = f.read()
    o.check(again == text and tab.create_rst_table() == text, 'repeat', msg)
    o.check(written == text, 'file', lambda: msg() + '\n' + written[:300])
    other = tables.Table(source, latex, tuple(bikes)).create_rst_table()
    o.check(other == text, 'again', msg)
    grid, err = read_grid(text)
    if o.check(err is None, 'grid', lambda: '%s: %s\n%s' % (msg(), err, text)):
        rows, kinds = grid
        o.check(rows[0][0] == '' and rows[0][1:] == [b.bicycleName for b in bikes], 'grid-bicycles', lambda: '%r\n%s' % (rows[0], text))
        math_ = (lambda s: ':math:`%s`' % s) if latex else (lambda s: s)
        o.check(rows[1] == ['Variable'] + [math_('v'), math_(r'\sigma')]*len(bikes) if latex else rows[1] == ['Variable'] + ['v', 'sigma']*len(bikes), 'grid-header', lambda: str(rows[1]))
        want = [[math_(r[0])] + r[1:] for r in data]
        o.check(rows[2:] == want, 'grid-cells', lambda: '%s\n%s' % (msg(), text))
        o.check(kinds[0] == '-' and kinds.count('=') == 1 and '=' in kinds[1:3], 'grid-rules', lambda: str(kinds) + '\n' + text)
    o.check([snap(b.parameters) for b in bikes] == before, 'parameters-changed', msg)
    return tab


def number(v, s):
    return float(v) if s is None else ufloat(v, s)


def bike(par, name):
    b = load_params({'w': 1.0}, name=name)
    b.parameters = {'Benchmark': dict(par), 'Measured': dict(par)}
    return b


def run_round(case):
    o = Outcome()
    for v, s in case['items']:
        x = number(v, s)
        t = tables.uround(x)
        parts = t.split('+/-')
        if s is None:
            o.check(len(parts) == 1, 'uround-plain', t)
            judge_cell(o, x, parts[0], 'NA', 'uround')
        else:
            o.check(len(parts) == 2, 'uround-parts', t)
            judge_cell(o, x, parts[0], parts[-1], 'uround')
        o.key((v, s))
    return o


def run_grid(case):
    o = Outcome()
    with Tree() as t:
        vals = case['items']
        par = {}
        names = ['w', 'c', 'lam', 'mB', 'IBxx', 'IBxz', 'zH', 'TcB1', 'alphaB2', 'aS1', 'LhbF', 'd', 'xcl']
        for n, (v, s) in zip(names, vals):
            par[n] = number(v, s)
        for latex in (False, True):
            judge_table(o, 'Benchmark', latex, [bike(par, 'Grid')], 'grid', t.root)
        o.key(str(vals))
    return o


KINDS = {'-': None, 'f': (1.25, None), 'u': (0.123456, 0.0123), 'e': (3.5, 0.0), 'L': (-12345.678, 12.0)}


def run_patterns(case):
    o = Outcome()
    with Tree() as t:
        for pats, names, source in case['items']:
            bikes = []
            for p, n in zip(pats, names):
                par = {var: number(*KINDS[k]) for var, k in zip(('IBxx', 'w', 'lam'), p) if KINDS[k] is not None}
                bikes.append(bike(par, n))
            if not any(b.parameters['Benchmark'] for b in bikes):
                continue
            for latex in (False, True):
                judge_table(o, source, latex, bikes, '%r %r' % (pats, names), t.root)
            o.key((str(pats), str(names)))
    return o


def run_case(case):
    """variables whose names differ in case only, all presence patterns"""
    o = Outcome()
    with Tree() as t:
        for pats in case['items']:
            bikes = [bike({var: number(*KINDS[k]) for var, k in zip(('lF', 'lf', 'ds1', 'dS1', 'xb', 'xB'), p) if KINDS[k] is not None}, 'Bike%d' % i) for i, p in enumerate(pats)]
            if any(b.parameters['Benchmark'] for b in bikes):
                judge_table(o, 'Benchmark', False, bikes, 'case %r' % (pats,), t.root)
                o.key(str(pats))
    return o


def run_shipped(case):
    o = Outcome()
    with Tree() as t:
        for names in case['items']:
            bikes = [shipped(n) for n in names]
            for source in ('Benchmark', 'Measured'):
                if all(source in b.parameters for b in bikes):
                    for latex in (False, True):
                        judge_table(o, source, latex, bikes, '%r' % (names,), t.root)
            o.key(str(names))
    return o


def run_sequences(case):
    """tables live side by side: no operation changes another table or bicycle"""
    o = Outcome()
    with Tree() as t:
        def fresh():
            return [shipped('Browser'), bike({'w': 1.0, 'IBxx': ufloat(2.0, 0.03), 'zzz'[:2]: 4.0}, 'Other')]
        ref = {}
        for latex in (False, True):
            tab = tables.Table('Benchmark', latex, fresh())
            ref[latex] = ([list(r) for r in tab.tableData], tables.Table('Benchmark', latex, fresh()).create_rst_table())
        ops = ['data', 'latexdata', 'rst', 'latexrst', 'file', 'regenerate', 'list']
        for seq in itertools.product(ops, repeat=3):
            bikes = fresh() if seq[0] == ops[0] and seq[1] == ops[0] else bikes
            tabs = {latex: tables.Table('Benchmark', latex, bikes) for latex in (False, True)}
            for op in seq:
                o.transitions += 1
                if op in ('data', 'latexdata'):
                    o.check([list(r) for r in tabs[op != 'data'].tableData] == ref[op != 'data'][0], 'seq-data', str(seq))
                elif op in ('rst', 'latexrst'):
                    o.check(tabs[op != 'rst'].create_rst_table() == ref[op != 'rst'][1], 'seq-rst', str(seq))
                elif op == 'file':
                    p = t.path('a.rst')
                    tabs[False].create_rst_table(p)
                    with open(p) as f:
                        o.check(f.read() == ref[False][1], 'seq-file', str(seq))
                elif op == 'regenerate':
                    tabs[False].generate_variable_list()
                    tabs[False].generate_table_data()
                else:
                    o.check(len(tabs[True].allVariables) == len(ref[True][0]), 'seq-list', str(seq))
            o.key(seq)
    return o


def run_latex(case):
    o = Outcome()
    names = set(refs.BENCH) - {'v'}
    for split in (False, True):
        names |= set(measure.truth(dict(measure.BASE, **measure.FLY), split, True))
        for geo in ('abc', 'w'):
            names |= set(measure.measure(dict(measure.BASE, **measure.FLY), split, geo, measure.ANG, True, {}, seat=True))
    names |= {'yB', 'xcl', 'zcl', 'ds1', 'ds3'}
    seen = {}
    for n in sorted(names):
        l = tables.to_latex(n)
        o.check(plain(l) == n.lower(), 'latex', lambda: '%r -> %r' % (n, l))
        o.check(l not in seen, 'latex-collision', lambda: '%r %r -> %r' % (n, seen.get(l), l))
        o.check(l.count('{') == l.count('}'), 'latex-braces', l)
        seen[l] = n
        o.key(n)
    return o


def run(case):
    return globals()['run_' + case['kind']](case)


CHUNK = 1
NAMES = ['Browser', 'Browserins', 'Rigid', 'Silver', 'Benchmark', 'Pista', 'Yellow', 'Balanceassistv1']


def cases(tier):
    deep = tier != 'quick'
    vals, sds = (VALS + MORE, SDS + MORESD) if deep else (VALS, SDS)
    items = list(itertools.product(vals, sds))
    yield {'kind': 'round', 'items': items}
    yield {'kind': 'latex'}
    yield {'kind': 'sequences'}
    for b in chunks(items, 13):
        yield {'kind': 'grid', 'items': b}
    pats = [''.join(p) for p in itertools.product('-fueL', repeat=3)]
    few = [''.join(p) for p in itertools.product('-fu', repeat=3)]
    items = [([p], [n], 'Benchmark') for p in pats for n in ('A', 'Averyverylongbicyclenameindeed')]
    items += [([p, q], n, 'Measured') for p in few for q in few for n in (['Bb', 'Aa'], ['Same', 'Averyverylongbicyclenameindeed'], ['Twin', 'Twin'], ['Twin', 'twin'])]
    items += [([p, q, r], ['One', 'Two', 'Xthreeeeeeeeeeeeeeeeeeeeeeeeeeeeee'], 'Benchmark') for p in (pats if deep else few[::2]) for q in few[::2 if not deep else 1] for r in few[1::2]]
    for b in chunks(items, 150):
        yield {'kind': 'patterns', 'items': [list(x) for x in b]}
    six = [''.join(p) for p in itertools.product('-f', repeat=6)]
    items = [[p] for p in six] + [[p, q] for p in six[::5] for q in (six if deep else six[::3])] + [['uufue-', 'fLfufu']]
    for b in chunks(items, 150):
        yield {'kind': 'case', 'items': b}
    combos = [[n] for n in NAMES] + [list(c) for c in itertools.permutations(NAMES, 2)]
    combos += [list(c) for c in (itertools.permutations(NAMES, 3) if deep else itertools.combinations(NAMES, 3))]
    combos.append(list(NAMES))
    # one bicycle twice, e.g. before and after something was changed
    combos += [[n, n] for n in NAMES] + [[NAMES[0], n, NAMES[0]] for n in NAMES[1:]]
    for b in chunks(combos, 8):
        yield {'kind': 'shipped', 'items': b}
