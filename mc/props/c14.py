"""C14: bicycle loading chooses its data source by the documented rules.

Every configuration of a bicycle folder (parameter files, noise files, raw
measurements, recorded periods, recordings) x both force flags x fork type,
and every short sequence of loads, is executed with the real loader.  The
reference model is the decision table of the documentation together with a
forward model of the measurements (mc/measure.py) with *different* true values
in the saved and in the measured data, so that the source is recognisable.
"""
import io as _io
import itertools
import os
import sys

from uncertainties import ufloat

from mc import measure, rawdata, refs
from mc.bikes import DATA, Tree, nom, sd, write_par
from mc.engine import Outcome, chunks, raises, snap

import bicycleparameters as bp
from bicycleparameters import io

ID = 'C14'
LEVEL = 'model_checking'
TECHNIQUE = ('explicit-state exploration: every folder configuration and every sequence of loads up to a bound executed on the real loader, against a decision-table '
             'reference model with recognisable data sources')
LEVEL_NOTE = ('All combinations of 5 parameter folder contents x 6 raw folder contents x 2 fork types x 2 number types as initial states; all load sequences (4 flag '
              'combinations) of length 1 from each, length 2-3 (thorough 4) where the folder can change; every shipped bicycle.')
RULE = 'a state is the folder content; a transition is one load with given flags; loaded data, files touched and messages are judged after every transition'
ASSUMPTIONS = ['measurements that are incomplete without any recordings are outside (the documentation announces an error)']

PARS = ['none', 'empty', 'bench', 'bench+extra', 'extra', 'noise']
RAWS = ['none', 'empty', 'full', 'full+mat', 'few+mat', 'stray+mat', 'matonly']
SAVED = dict(refs.BENCH)
FEW_MISSING = {False: ['TtB2', 'TcF1'], True: ['TtS1', 'TcG1']}
# too few of one sort only: the entries left are exactly one below the number needed
STRAY_MISSING = {False: ['TtB2', 'TtF1'], True: ['TtS1', 'TtB2']}
PARTS = {'F': 'Fwheel', 'R': 'Rwheel', 'B': 'Frame', 'D': 'Flywheel', 'S': 'Fork', 'H': 'Fork', 'G': 'Handlebar', 'P': 'Rod'}
PEND = {'c': 'Compound', 't': 'Torsional'}


def num(d, kind):
    return {k: (ufloat(v, 0.001*abs(v) + 1e-6) if kind == 'u' and k[0] != 'n' else float(v)) for k, v in d.items()}


def true_bike(split):
    return dict(measure.BASE)


def setup(t, par, raw, split, kind, name='Synth'):
    """builds the folder; returns (saved benchmark or None, extra sets, measured dict or None, periods in recordings)"""
    base = t.path('bicycles', name)
    os.makedirs(base)
    saved, extra, measured, recs = None, {}, None, {}
    pd = os.path.join(base, 'Parameters')
    if par != 'none':
        os.makedirs(pd)
    if par in ('bench', 'bench+extra', 'noise'):
        saved = num(SAVED, kind)
        write_par(os.path.join(pd, name + 'Benchmark.txt'), saved)
    if par in ('bench+extra', 'extra'):
        extra = {'Principal': {'mB': 1.0, 'kB': 2.5}}
        write_par(os.path.join(pd, name + 'Principal.txt'), extra['Principal'])
    if par == 'noise':
        for x in ('SynthBenchmark.txt~', '.SynthBenchmark.txt.swp', 'SynthBenchmark.txt.tmp', 'notes.md', '#SynthBenchmark.txt#', 'SynthBenchmark.bak', '.hidden.txt'):
            with open(os.path.join(pd, x), 'w') as f:
                f.write('mB = 77.0\nnonsense\n')
    rd = os.path.join(base, 'RawData')
    if raw != 'none':
        os.makedirs(rd)
    p = true_bike(split)
    ang = {k: v[:3] for k, v in measure.ANG.items()} if raw == 'stray+mat' else None
    mp = measure.measure(p, split, 'w' if split else 'abc', angles=ang)
    mats = []
    few = {'few+mat': FEW_MISSING[split], 'stray+mat': STRAY_MISSING[split]}.get(raw, [])
    if raw in ('full+mat', 'few+mat', 'stray+mat'):
        mats = few or ['TcB1', 'TtP1']
    if raw == 'matonly':
        mats = ['TtB1']
    for k in mats:
        # recordings of other periods than those written down
        T = mp[k]*1.03
        recs[k] = T
        rawdata.write_mat(os.path.join(rd, rawdata.filename(name, PARTS[k[2]], PEND[k[1]], rawdata.ORD[int(k[3]) - 1])),
                          rawdata.recording(PARTS[k[2]], PEND[k[1]], rawdata.ORD[int(k[3]) - 1], T, n=500, rate=int(60/T), rod='Rod'))
    if raw in ('full', 'full+mat', 'few+mat', 'stray+mat'):
        measured = num(mp, kind)
        for k in few:
            del measured[k]
        if raw == 'stray+mat':
            # entries which are no periods
            measured.update({'Tref': 21.0, 'tcX': 1.0, 'TirePressure': 5.0, 'xTtB9': 2.0, 'nTc': 4.0})
        write_par(os.path.join(rd, name + 'Measured.txt'), measured)
        with open(os.path.join(rd, 'Notes.txt'), 'w') as f:
            f.write('hello = 1\n')
    return saved, extra, measured, recs


def load(t, force, fperiod, name='Synth'):
    out = _io.StringIO()
    old = sys.stdout
    sys.stdout = out
    try:
        b = bp.Bicycle(name, pathToData=t.root, forceRawCalc=force, forcePeriodCalc=fperiod)
    finally:
        sys.stdout = old
    return b, out.getvalue()


def eq(a, b, tol=1e-12):
    return set(a) == set(b) and all(abs(nom(a[k]) - nom(b[k])) <= tol*max(abs(nom(b[k])), 0.01) and abs(sd(a[k]) - sd(b[k])) <= 1e-6*sd(b[k]) + 1e-15 for k in a)


def enough(m, split):
    c = sum(k.startswith('Tc') for k in m)
    tt = sum(k.startswith('Tt') for k in m)
    return (c >= 5 and tt >= 11) if split else (c >= 4 and tt >= 8)


_CAL = {}


def reduce_(m):
    from bicycleparameters.main import calculate_benchmark_from_measured
    return calculate_benchmark_from_measured(dict(m))[0]


def run_config(case):
    o = Outcome()
    par, raw, split, kind = case['par'], case['raw'], case['split'], case['kind']
    for seq in case['seqs']:
        with Tree() as t:
            saved, extra, measured, recs = setup(t, par, raw, split, kind)
            o.states += 1
            for step, (force, fper) in enumerate(seq):
                msg = lambda: 'par=%s raw=%s split=%r %s %r step %d' % (par, raw, split, kind, seq, step)
                before = t.snapshot()
                b, text = load(t, force, fper)
                after = t.snapshot()
                o.transitions += 1
                o.check(not b.hasRider and b.bicycleName == 'Synth' and 'Synth' in str(b) and 'no one' in str(b), 'identity', msg)
                got = b.parameters
                for s in extra:
                    o.check(s in got and eq(got[s], extra[s]), 'extra-set', msg)
                use_raw = measured is not None and (force or saved is None)
                use_saved = saved is not None and not force
                if use_raw:
                    redo = fper or not enough(measured, split)
                    if redo:
                        for k, T in recs.items():
                            m = got.get('Measured', {}).get(k)
                            # the recorded period, found by a fit
                            o.check(m is not None and abs(nom(m) - T) < 2e-3*T, 'period-from-recording', lambda: '%s %s %r %r' % (msg(), k, m, T))
                        now = dict(measured)
                        now.update({k: got['Measured'][k] for k in recs})
                        changed = {k for k in set(before) | set(after) if before.get(k) != after.get(k) and not k.endswith('/')}
                        allowed = {k for k in changed if k.startswith(os.path.join('bicycles', 'Synth', 'Plots'))} | {os.path.join('bicycles', 'Synth', 'RawData', 'SynthMeasured.txt')}
                        o.check(changed <= allowed, 'other-files-changed', lambda: '%s %r' % (msg(), changed - allowed))
                        # the file holds the periods, for the next load
                        disk = io.load_parameter_text_file(t.path('bicycles', 'Synth', 'RawData', 'SynthMeasured.txt'))
                        o.check(set(disk) == set(now), 'file-names', lambda: '%s %r' % (msg(), set(disk) ^ set(now)))
                        o.check(all(abs(nom(disk[k]) - nom(now[k])) <= 2e-5*abs(nom(now[k])) + 1.0*sd(now[k]) for k in now), 'file-values', msg)
                        o.check(eq(got['Measured'], now), 'measured', msg)
                        measured = dict(disk)
                    else:
                        o.check(after == before, 'files-changed', lambda: '%s %r' % (msg(), {k for k in set(before) | set(after) if before.get(k) != after.get(k)}))
                        o.check(eq(got.get('Measured', {}), measured), 'measured', msg)
                        now = measured
                    if 'Benchmark' in got:
                        o.check(eq(got['Benchmark'], reduce_(now), 1e-9), 'benchmark-from-measured', msg)
                        if not redo and (step == 0 or kind == 'f'):
                            want = measure.truth(true_bike(split), split, False)
                            tol = 1e-6
                            o.check(raw != 'full' or all(abs(nom(got['Benchmark'][k]) - want[k]) <= tol*max(abs(want[k]), .01) for k in want), 'true-bicycle', msg)
                    else:
                        o.check(False, 'no-benchmark', msg)
                    o.check(hasattr(b, 'extras') and set(b.extras) >= {'slopes', 'intercepts', 'betas', 'pendulumInertias'}, 'extras', msg)
                    o.check(set(got) == {'Benchmark', 'Measured'} | set(extra), 'sets', lambda: '%s %r' % (msg(), sorted(got)))
                else:
                    o.check(after == before, 'files-changed', lambda: '%s %r' % (msg(), {k for k in set(before) | set(after) if before.get(k) != after.get(k)}))
                    if use_saved:
                        o.check(eq(got.get('Benchmark', {}), saved), 'benchmark-saved', msg)
                        if measured is not None:
                            o.check(eq(got.get('Measured', {}), measured), 'measured-available', msg)
                        o.check(set(got) == {'Benchmark'} | set(extra) | ({'Measured'} if measured is not None else set()), 'sets', lambda: '%s %r' % (msg(), sorted(got)))
                    else:
                        # nothing usable: reported, nothing invented
                        o.check('Synth' in text, 'not-reported', lambda: msg() + text)
                        o.check('Benchmark' not in got or (saved is not None and eq(got['Benchmark'], saved)), 'invented', lambda: '%s %r' % (msg(), sorted(got)))
                # loading again without calculation gives the same
                again = t.snapshot()
                b2, _ = load(t, force, False)
                if enough(measured or {}, split) or not use_raw:
                    o.check(t.snapshot() == again, 'reload-changed-files', msg)
                tol = 2e-3 if (use_raw and redo) else 1e-12
                same = set(b2.parameters) == set(got) and all(
                    set(b2.parameters[s]) == set(got[s]) and all(abs(nom(b2.parameters[s][k]) - nom(got[s][k])) <= tol*max(abs(nom(got[s][k])), 1.0) for k in got[s])
                    for s in got)
                o.check(same, 'reload-differs', msg)
                o.key((par, raw, split, kind, force, fper, use_raw, use_saved))
            o.validated += 1
    return o


def run_counts(case):
    """whether periods have to be recomputed, for all numbers of recorded periods of each sort"""
    from bicycleparameters import period
    o = Outcome()
    stray = [{}, {'Tref': 21.0}, {'TirePressure': 5.0, 'tcX': 1.0, 'TTc': 2.0, 'xTt': 3.0, 'nTc': 4.0}]
    names = [p + n for p in 'BFRHSGPD' for n in '123']
    for split, ex, nc, nt in itertools.product((False, True), stray, range(8), range(15)):
        mp = {'w': 1.0, 'g': 9.81}
        mp.update({'Tc' + k: 1.0 for k in names[:nc]})
        mp.update({'Tt' + k: ufloat(2.0, .1) for k in names[:nt]})
        mp.update(ex)
        got = period.check_for_period(mp, split)
        want = not enough(mp, split)
        o.check(bool(got) == want, 'counts', lambda: 'split=%r %d compound %d torsional %r -> %r' % (split, nc, nt, ex, got))
        o.states += 1
        o.transitions += 1
        o.key((split, nc, nt))
    o.validated += 1
    return o


EDITS = ['bench', 'meas', 'extra', 'none', 'swap']


def run_edits(case):
    """loads interleaved with edits of the files which keep name, size and time stamp"""
    o = Outcome()
    for seq in case['seqs']:
        with Tree() as t, Tree() as t2:
            pd, rd = [], []
            cur = []
            for x in (t, t2):
                base = x.path('bicycles', 'Synth')
                os.makedirs(os.path.join(base, 'Parameters'))
                os.makedirs(os.path.join(base, 'RawData'))
                ben = dict(SAVED)
                mp = dict(measure.measure(true_bike(False), False, 'abc'))
                cur.append({'Benchmark': ben, 'Measured': mp, 'Extra': {'q': 1.5}})
            files = {'Benchmark': ('Parameters', 'SynthBenchmark.txt'), 'Measured': ('RawData', 'SynthMeasured.txt'), 'Extra': ('Parameters', 'SynthExtra.txt')}

            def put(i):
                for s, (d, f) in files.items():
                    path = (t, t2)[i].path('bicycles', 'Synth', d, f)
                    write_par(path, cur[i][s])
                    os.utime(path, (1.0e9, 1.0e9))

            cur[1]['Benchmark']['mB'] = 2.0*cur[1]['Benchmark']['mB']
            put(0)
            put(1)
            use = 0
            for n, ed in enumerate(seq):
                force = (n % 2 == 1) if case['alt'] else False
                d = cur[use]
                if ed == 'bench':
                    d['Benchmark']['xB'] = round(d['Benchmark']['xB'] + 0.125, 6)
                elif ed == 'meas':
                    d['Measured']['mB'] = d['Measured']['mB'] + 0.25
                elif ed == 'extra':
                    d['Extra']['q'] += 1.0
                elif ed == 'swap':
                    use = 1 - use
                    d = cur[use]
                put(use)
                b, _ = load((t, t2)[use], force, False)
                msg = lambda: '%r step %d force=%r' % (seq, n, force)
                o.check(eq(b.parameters['Measured'], d['Measured']), 'edited:measured', msg)
                o.check(eq(b.parameters['Extra'], d['Extra']), 'edited:extra', msg)
                o.check(eq(b.parameters['Benchmark'], reduce_(d['Measured']) if force else d['Benchmark'], 1e-9), 'edited:benchmark', msg)
                # what a session does to its dictionaries stays in the session
                for s in b.parameters:
                    for k in list(b.parameters[s]):
                        b.parameters[s][k] = -1.0
                o.transitions += 1
            o.states += 1
            o.key(tuple(seq))
            o.validated += 1
    return o


def run_missing(case):
    o = Outcome()
    with Tree() as t:
        for name, make in (('Nobody', lambda: None), ('Afile', lambda: (os.makedirs(t.path('bicycles'), exist_ok=True), open(t.path('bicycles', 'Afile'), 'w').close()))):
            make()
            for f, p in itertools.product((False, True), repeat=2):
                e = raises(lambda: bp.Bicycle(name, pathToData=t.root, forceRawCalc=f, forcePeriodCalc=p), Exception)
                o.check(isinstance(e, ValueError) and name in str(e), 'missing-bicycle', lambda: '%s %r' % (name, e))
                o.states += 1
                o.transitions += 1
        # another bicycle beside it is not taken instead
        setup(t, 'bench', 'full', False, 'f', name='Other')
        e = raises(lambda: bp.Bicycle('Synth', pathToData=t.root), Exception)
        o.check(isinstance(e, ValueError), 'missing-bicycle', repr(e))
        os.makedirs(t.path('bicycles', 'Synth', 'RawData'))
        with open(t.path('bicycles', 'Synth', 'RawData', 'OtherMeasured.txt'), 'w') as f:
            f.write('h1 = 1.0\n')
        b, text = load(t, False, False)
        o.check(b.parameters == {} and 'Synth' in text, 'foreign-measured', lambda: repr(b.parameters))
        # relative and default folder
        cwd = os.getcwd()
        try:
            os.chdir(t.root)
            a = bp.Bicycle('Other')
            b = bp.Bicycle('Other', pathToData='.')
            c = bp.Bicycle('Other', pathToData=t.root + os.sep)
            d = bp.Bicycle('Other', t.root)
        finally:
            os.chdir(cwd)
        o.check(snap(a.parameters) == snap(b.parameters) == snap(c.parameters) == snap(d.parameters) and 'Benchmark' in a.parameters, 'data-path', '')
        o.validated += 1
    return o


def run_shipped(case):
    """each shipped bicycle, all flags, from a scratch copy"""
    o = Outcome()
    name = case['name']
    src = os.path.join(DATA, 'bicycles', name)
    with Tree() as t:
        t.copy_bike(name)
        pdir, rdir = os.path.join(src, 'Parameters'), os.path.join(src, 'RawData')
        saved = {}
        if os.path.isdir(pdir):
            for f in os.listdir(pdir):
                if f.endswith('.txt'):
                    saved[f[len(name):-4]] = io.load_parameter_text_file(os.path.join(pdir, f))
        mfile = os.path.join(rdir, name + 'Measured.txt')
        measured = io.load_parameter_text_file(mfile) if os.path.exists(mfile) else None
        before = t.snapshot()
        for force in (False, True):
            if force and measured is not None and not {'dF', 'dR', 'mB', 'TtP1'} <= set(measured):
                continue  # incomplete measurements
            b, text = load(t, force, False, name)
            msg = lambda: '%s force=%r' % (name, force)
            o.states += 1
            o.transitions += 1
            o.check(t.snapshot() == before, 'shipped:files-changed', msg)
            if measured is not None and (force or 'Benchmark' not in saved):
                o.check(eq(b.parameters['Measured'], measured) and eq(b.parameters['Benchmark'], reduce_(measured), 1e-9), 'shipped:raw', msg)
            elif 'Benchmark' in saved and not force:
                o.check(eq(b.parameters['Benchmark'], saved['Benchmark']), 'shipped:saved', msg)
                o.check(measured is None or eq(b.parameters['Measured'], measured), 'shipped:measured', msg)
            o.key((name, force))
        o.validated += 1
    return o


CHUNK = 1


def run(case):
    return {'config': run_config, 'missing': run_missing, 'shipped': run_shipped, 'counts': run_counts, 'edits': run_edits}[case['part']](case)


FLAGS = [(False, False), (True, False), (False, True), (True, True)]


def cases(tier):
    yield {'part': 'missing'}
    yield {'part': 'counts'}
    for c in chunks(itertools.product(EDITS, repeat=4 if tier == 'thorough' else 3), 25):
        for alt in (False, True):
            yield {'part': 'edits', 'seqs': c, 'alt': alt}
    from mc.engine import REPO
    for n in sorted(os.listdir(os.path.join(REPO, 'data', 'bicycles'))):
        if os.path.isdir(os.path.join(REPO, 'data', 'bicycles', n)):
            yield {'part': 'shipped', 'name': n}
    for raw in RAWS[::-1]:
        for par in PARS:
            for split in (False, True):
                for kind in ('f', 'u'):
                    if kind == 'u' and par in ('empty', 'none', 'extra') and raw in ('none', 'empty', 'matonly'):
                        continue
                    heavy = raw in ('full+mat', 'few+mat', 'stray+mat')
                    seqs = [[f] for f in FLAGS]
                    if heavy:
                        if par in ('none', 'bench') or tier == 'thorough':
                            seqs += [list(x) for x in itertools.product(FLAGS, repeat=2)]
                        if tier == 'thorough' and par in ('none', 'bench'):
                            seqs += [list(x) for x in itertools.product(FLAGS, repeat=3)]
                        if tier == 'quick' and kind == 'u':
                            seqs = [s for s in seqs if len(s) == 1]
                    else:
                        seqs += [list(x) for x in itertools.product(FLAGS, repeat=2)]
                        if tier == 'thorough':
                            seqs += [list(x) for x in itertools.product(FLAGS, repeat=3)]
                    for c in chunks(seqs, 4 if heavy else 20):
                        yield {'part': 'config', 'par': par, 'raw': raw, 'split': split, 'kind': kind, 'seqs': c}
