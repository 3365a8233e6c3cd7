"""C11: parameter text files mean what their format says.

Every file is *generated from its meaning*: a list of line objects (name,
values, uncertainties) rendered in every style of the documented format.  The
reference meaning is therefore known by construction and nothing is parsed by
the oracle.
"""
import itertools
import math
import os

import numpy as np
from uncertainties import ufloat

from mc.bikes import nom, scratch, sd
from mc.engine import Outcome, chunks, snap

from bicycleparameters import io

ID = 'C11'
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of all files of a bounded line grammar, generated from their meaning (reference model: last assignment wins over a '
             'dictionary), each parsed by the real loader')
LEVEL_NOTE = ('Every single line form (name x spacing x 1..3 values x comment x line end), every file of up to 3 (thorough 4) lines over the line menu x line '
              'ends x final newline. Non-ASCII text and malformed lines are outside.')
RULE = 'one state = the dictionary after a file prefix; one transition = one line; every file is parsed by the real code and compared with its meaning'
ASSUMPTIONS = ['averaged values are independent measurements; nominal values compared to 4 ulp, deviations to 1e-9']

# text, nominal, deviation
PLAIN = [('0.5', .5), ('.5', .5), ('5.', 5.), ('7', 7.), ('-0.25', -.25), ('+0.25', .25), ('1e3', 1e3), ('1E-3', 1e-3), ('-2.5e+02', -250.),
         ('0', 0.), ('0.0', 0.), ('123456.789', 123456.789), ('0.3000000000000000444', .3)]
UNC = [('0.08 +/- 0.01', .08, .01), ('0.314+/-0.002', .314, .002), ('0.08  +/-  0.01', .08, .01), ('-1.5 +/-0.1', -1.5, .1), ('-1.5+/- 0.1', -1.5, .1),
       ('1e3 +/- 1e1', 1000., 10.), ('2.5e-3+/-1e-04', .0025, .0001), ('12 +/- 3', 12., 3.), ('(8.00+/-0.10)e-02', .08, .001), ('0.5+/-0', .5, 0.),
       ('0.1+/-0.01', .1, .01), ('0.12+/-0.02', .12, .02), ('.5 +/- .25', .5, .25), ('9.75+/-0.0009999', 9.75, .0009999), ('+3.5 +/- 0.5', 3.5, .5),
       ('0 +/- 0.1', 0., .1), ('0.08\t+/-\t0.01', .08, .01), ('100 +/- 0.5', 100., .5)]
VALS = [(t, v, None) for t, v in PLAIN] + UNC
NAMES = ['c', 'whb', 'TcB1', 'lam', 'aB1', 'IRxx']
EQ = ['=', ' = ', '= ', ' =', '\t=\t', '   =   ']
SEP = [',', ', ', ' , ', ',  ', '\t,\t']
COMMENT = ['', '# note', ' # note', '#', ' # c = 3', '  # 1, 2 +/- 3', '## x = 4 # y']
LEAD = ['', ' ', '\t', '   ']
TRAIL = ['', ' ', '\t ']
EOLS = ['\n', '\r\n', '\r']
NOISE = ['', '   ', '\t', '# comment', '   # indented', '#c = 9.0', ' # c = 9 +/- 1', '#']


def mean(vals):
    n = len(vals)
    m = math.fsum(v for _, v, _ in vals)/n
    if all(s is None for _, _, s in vals):
        return m, None
    return m, math.sqrt(math.fsum((s or 0.0)**2 for _, _, s in vals))/n


def render(line):
    if line[0] == 'noise':
        return line[1]
    _, name, vals, eq, sep, com, lead, trail = line
    return lead + name + eq + sep.join(t for t, _, _ in vals) + trail + com


def judge(o, path, text, lines, sig, keep=False):
    data = text.encode('ascii')
    with open(path, 'wb') as f:
        f.write(data)
    got = io.load_parameter_text_file(path)
    msg = lambda: '%r -> %r' % (text, got)
    want = {}
    for ln in lines:
        o.transitions += 1
        if ln[0] == 'set':
            want[ln[1]] = mean(ln[2])
    o.states += 1
    o.key(tuple(sorted((k, v) for k, v in want.items())))
    if not o.check(set(got) == set(want), sig + ':names', msg):
        return
    for k, (m, s) in want.items():
        g = got[k]
        o.check(abs(nom(g) - m) <= 1e-15*max(1.0, abs(m))*4, sig + ':value', msg)
        o.check(abs(sd(g) - (s or 0.0)) <= 1e-9*(s or 0.0), sig + ':uncertainty', msg)
    # separately given values are independent of each other
    unc = [k for k in got if sd(got[k]) > 0]
    for a, b in itertools.combinations(unc, 2):
        d = got[a] - got[b]
        o.check(abs(sd(d) - math.hypot(sd(got[a]), sd(got[b]))) <= 1e-9*sd(d), sig + ':independent', msg)
    before = snap(got)
    bare = io.remove_uncertainties(got)
    o.check(set(bare) == set(got) and all(not hasattr(bare[k], 'std_dev') and float(bare[k]) == float(nom(got[k])) for k in got), sig + ':stripped', msg)
    o.check(snap(got) == before, sig + ':stripping-changed-argument', msg)
    with open(path, 'rb') as f:
        o.check(f.read() == data, sig + ':file-changed', msg)
    o.validated += 1


S = lambda name, *vals, **k: ('set', name, list(vals), k.get('eq', ' = '), k.get('sep', ', '), k.get('com', ''), k.get('lead', ''), k.get('trail', ''))
P = {t: (t, v, s) for t, v, s in VALS}
MENU = [('noise', ''), ('noise', '  '), ('noise', '# comment'), ('noise', '\t# c = 9.0'), S('c', P['0.5']), S('c', P['0.08 +/- 0.01']),
        S('c', P['0.1+/-0.01'], P['0.12+/-0.02']), S('whb', P['7'], lead='  ', com=' # c = 1'), S('whb', P['-1.5 +/-0.1'], eq='='),
        S('cc', P['0.5'], P['7'], P['5.'], eq='\t=\t', trail=' '), S('whb', P['0.5'], P['0.1+/-0.01'], sep=','), S('TcB1', P['(8.00+/-0.10)e-02'], com='#x'),
        S('C', P['1E-3'])]


def run_lines(case):
    o = Outcome()
    d = scratch('c11')
    path = os.path.join(d, 'f.txt')
    for ln, eol in case['lines']:
        ln = tuple(ln)
        body = render(ln)
        for text in {body + eol, body}:
            judge(o, path, text, [ln], 'line')
    return o


def run_files(case):
    o = Outcome()
    d = scratch('c11')
    path = os.path.join(d, 'f.txt')
    for idx in case['files']:
        lines = [MENU[i] for i in idx]
        bodies = [render(ln) for ln in lines]
        for eol in EOLS[:2]:
            for final in (True, False):
                judge(o, path, eol.join(bodies) + (eol if final else ''), lines, 'file')
        if len(lines) > 1:  # mixed line ends
            judge(o, path, bodies[0] + '\r\n' + '\n'.join(bodies[1:]), lines, 'file-mixed')
    return o


def run_strip(case):
    """dictionaries of all value kinds"""
    o = Outcome()
    kinds = {'float': 1.5, 'int': 3, 'zero': 0.0, 'u': ufloat(2.5, .5), 'u0': ufloat(1.0, 0.0), 'expr': 2*ufloat(1.0, .1) + ufloat(3.0, .2),
             'list': [ufloat(1.0, .1), ufloat(2.0, .2)], 'arr': np.array([ufloat(1.0, .1), ufloat(2.0, .2), ufloat(0.0, .2)]), 'np': np.float64(-2.0),
             'tiny': ufloat(1.2345678901234567e-13, 1e-20), 'tinies': [ufloat(1.2345678901234567e-13, 1e-20), ufloat(-7.654321098765432e9, 1.0)],
             'long': np.array([ufloat(1.0/3.0, .1), ufloat(2.0/3.0*1e-7, .2)])}
    names = sorted(kinds)
    for n in range(len(names) + 1):
        for combo in itertools.combinations(names, n):
            d = {k + 'x': kinds[k] for k in combo}
            before = snap(d)
            r = io.remove_uncertainties(d)
            msg = lambda: '%r -> %r' % (d, r)
            o.states += 1
            o.transitions += 1
            ok = set(r) == set(d)
            for k in r:
                w = nom(d[k])
                ok = ok and np.array_equal(np.asarray(r[k], dtype=float), np.asarray(w, dtype=float))
            o.check(ok, 'strip:values', msg)
            o.check(snap(d) == before, 'strip:argument', msg)
            o.key(combo)
    return o


def run_shipped(case):
    """the shipped files, restyled: comments, white space and line ends do not change the meaning"""
    o = Outcome()
    d = scratch('c11')
    path = os.path.join(d, 'f.txt')
    with open(case['path']) as f:
        src = [ln.rstrip('\n') for ln in f]
    ref = io.load_parameter_text_file(case['path'])
    as_key = lambda x: {k: (float(nom(v)), float(sd(v))) for k, v in x.items()}
    styles = {'crlf': '\r\n'.join(src) + '\r\n', 'nofinal': '\n'.join(src).rstrip('\n'), 'indent': ''.join('  \t' + ln + '\n' for ln in src),
              'trail': ''.join(ln + ' \t\n' for ln in src), 'comment': ''.join(ln + ' # Tx = 1, 2\n' for ln in src),
              'spread': '# head\n\n' + '\n\n# x = 3\n'.join(src) + '\n',
              'tight': ''.join(ln.replace(' ', '') + '\n' for ln in src), 'loose': ''.join(ln.replace('=', '  =  ').replace('+/-', '  +/-  ').replace(',', ' , ') + '\n' for ln in src)}
    for s, text in sorted(styles.items()):
        with open(path, 'w', newline='') as f:
            f.write(text)
        got = io.load_parameter_text_file(path)
        o.check(as_key(got) == as_key(ref), 'restyled:' + s, lambda: case['path'])
        o.states += 1
        o.transitions += 1
    # every assignment line has its entry, with the text's first number when single
    names = {ln.split('#')[0].split('=')[0].strip() for ln in src if ln.split('#')[0].strip()}
    o.check(set(ref) == names, 'shipped:names', lambda: case['path'])
    o.validated += 1
    return o


def run(case):
    return {'lines': run_lines, 'files': run_files, 'strip': run_strip, 'shipped': run_shipped}[case['part']](case)


def all_lines(tier):
    # every value form in every styling dimension, one or two dimensions at a time
    for v in VALS:
        for name in NAMES:
            for eq in EQ:
                for com in COMMENT:
                    yield ('set', name, [v], eq, ',', com, '', ''), '\n'
        for lead in LEAD:
            for trail in TRAIL:
                for eol in EOLS:
                    yield ('set', 'c', [v], ' = ', ',', '', lead, trail), eol
                    yield ('set', 'c', [v], '=', ',', '#n', lead, trail), eol
    for a, b in itertools.product(VALS, VALS):
        for sep in SEP:
            yield ('set', 'c', [a, b], ' = ', sep, '', '', ''), '\n'
    tri = VALS if tier == 'thorough' else [VALS[0], VALS[4], VALS[6], UNC[0], UNC[1], UNC[3], UNC[8], UNC[9]]
    for abc in itertools.product(tri, tri, tri):
        yield ('set', 'c', list(abc), ' = ', ', ', '', '', ''), '\n'
    for n in NOISE:
        for eol in EOLS:
            yield ('noise', n), eol


def cases(tier):
    import glob
    from mc.engine import REPO
    for c in chunks(all_lines(tier), 400):
        yield {'part': 'lines', 'lines': c}
    yield {'part': 'strip'}
    files = (idx for n in range(0, 5 if tier == 'thorough' else 4) for idx in itertools.product(range(len(MENU)), repeat=n))
    for c in chunks(files, 60):
        yield {'part': 'files', 'files': c}
    for p in sorted(glob.glob(os.path.join(REPO, 'data', 'bicycles', '*', '*', '*.txt')) +
                    glob.glob(os.path.join(REPO, 'data', 'riders', '*', 'Parameters', '*.txt')) +
                    glob.glob(os.path.join(REPO, 'bicycleparameters', 'app-data', '*', '*', 'Parameters', '*.txt'))):
        yield {'part': 'shipped', 'path': p}
