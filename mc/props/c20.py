"""C20: oscillation records yield their true period under the right name.

The whole naming table (pendulum x part x orientation x fork x field names) and
the whole sufficiency table are enumerated; clean synthetic recordings over a
grid of periods, damping, phases, offsets, rates, lengths and time bases go
through the real fit; every small set of recordings (with repeated trials) is
filed by the real code and compared with a dictionary model.
"""
import itertools
import math
import os

import numpy as np

from mc import rawdata
from mc.bikes import Tree, nom, sd
from mc.engine import Outcome, chunks, deviations, raises, snap

from bicycleparameters import io, period

ID = 'C20'
LEVEL = 'exploration'
TECHNIQUE = ('exhaustive enumeration of the naming and sufficiency tables and of all small sets of recordings, and bounded-deviation enumeration of clean synthetic '
             'oscillations through the real fit against the true period')
LEVEL_NOTE = ('Complete naming table (2 x 7 x 6 x 2 x 2 x 3), file-name table and sufficiency table (0..13 x 0..15 x 2); oscillations within 2 (thorough 3) deviations over 9 '
              'dimensions and the full product of period x damping x phase; all multisets of up to 3 of 8 recordings with two trials.')
RULE = 'one evaluation = one relation checked on one recording, set of recordings or table entry'
ASSUMPTIONS = ['a clean recording has an amplitude of at least 0.5 V, at least 50 samples per period and at least four periods before it decays to 10 %']

MENU = {'T': [0.4, 0.8, 2.5, 4.0, 6.0], 'zeta': [0.0, 0.0005, 0.008, 0.02], 'phase': [0.4, 1.2, math.pi/2, 2.5, math.pi, -0.9, -2.2], 'off': [-3.0, 0.5, 2.5],
        'amp': [0.5, 1.0, 4.5], 'spp': [60, 150, 333.3, 1000], 'periods': [6.3, 12.0, 25.5], 'form': ['ActualRate', 'time', 'time-shift', 'time-jitter', 'int', 'array'],
        'noise': [1e-4, 2e-3]}
DEFAULT = {'T': 1.3, 'zeta': 0.002, 'phase': 0.0, 'off': 0.0, 'amp': 2.0, 'spp': 100, 'periods': 9.0, 'form': 'sampleRate', 'noise': 0.0}


def quick_figures():
    import matplotlib
    matplotlib.rcParams.update({'figure.dpi': 15, 'savefig.dpi': 15, 'text.parse_math': False})


def build(d):
    """time, data and time base argument of a recording"""
    T, n = d['T'], int(d['spp']*d['periods'])
    rate = d['spp']/T
    if d['form'] == 'int':
        rate = max(1, int(round(rate)))
        n = int(rate*T*d['periods'])
    t = np.arange(n)/float(rate)
    if d['form'] == 'time-jitter':
        t = t + 0.2/rate*np.sin(1.7*np.arange(n))
    y = rawdata.wave(t, T, d['amp'], d['zeta'], d['phase'], d['off'])
    if d['noise']:
        k = np.arange(n)
        y = y + d['noise']*(np.sin(12.9898*k*k) + np.sin(78.233*k))
    base = {'sampleRate': float(rate), 'ActualRate': np.float64(rate), 'int': rate, 'array': np.array(rate), 'time': t, 'time-jitter': t, 'time-shift': t + 2.5}[d['form']]
    return t, y, base


def judge_period(o, got, d, sig, how):
    T, s = nom(got), sd(got)
    tol = 1e-6 if d['noise'] == 0 else 4e-2*d['noise']/d['amp'] + 1e-6
    o.check(abs(T - d['T']) <= tol*d['T'], sig, lambda: '%s: %r' % (how, got))
    o.check(hasattr(got, 'std_dev') and math.isfinite(s) and 0 <= s < 0.01*d['T'], sig + '-deviation', lambda: '%s: %r' % (how, got))


def standard_error(t, d, noise):
    """standard error of the period of a least squares fit to a recording with this noise"""
    wo = 2*math.pi/d['T']/math.sqrt(1 - d['zeta']**2)
    p = np.array([d['off'], d['amp']*math.cos(d['phase']), -d['amp']*math.sin(d['phase']), d['zeta'], wo])

    def f(p):
        w = p[4]*np.sqrt(1 - p[3]**2)
        return p[0] + np.exp(-p[3]*p[4]*t)*(p[1]*np.cos(w*t) + p[2]*np.sin(w*t))
    J = []
    for i in range(5):
        h = np.zeros(5)
        h[i] = 1e-6*max(1.0, abs(p[i]))
        J.append((f(p + h) - f(p - h))/(2*h[i]))
    J = np.array(J).T
    res = noise - J @ np.linalg.lstsq(J, noise, rcond=None)[0]
    return d['T']/wo*math.sqrt(res @ res/(len(t) - 5)*np.linalg.inv(J.T @ J)[4, 4])


def run_jac(case):
    """the derivatives of the fitted function with respect to its five parameters"""
    o = Outcome()
    t = np.linspace(0.0, 7.0, 50)

    def f(p):
        w = p[4]*np.sqrt(1 - p[3]**2)
        return p[0] + np.exp(-p[3]*p[4]*t)*(p[1]*np.sin(w*t) + p[2]*np.cos(w*t))
    for p in itertools.product([0.0, -1.5], [0.0, 0.7, -2.0], [0.0, 1.1, -0.4], [0.0, 0.002, 0.05, 0.3], [0.8, 4.0]):
        p = np.array(p)
        got = period.jac_fitfunc(p.copy(), t.copy())
        want = np.array([(f(p + h) - f(p - h))/2e-6 for h in 1e-6*np.eye(5)]).T
        o.check(np.shape(got) == want.shape and np.allclose(got, want, rtol=1e-5, atol=1e-6), 'derivatives', lambda: repr(p))
        o.key(tuple(p))
    return o


def run_fit(case):
    o = Outcome()
    quick_figures()
    with Tree() as t:
        for over in case['items']:
            d = dict(DEFAULT, **over)
            if d['zeta']*2*math.pi*min(d['periods'], 4.0) > 2.31:
                continue
            tt, y, base = build(d)
            y0, b0 = y.copy(), np.array(base, copy=True)
            png = t.path('fit.png')
            # without decay the largest sample, where truncation starts, may be the last one
            for fn in (period.get_period, period.get_period_from_truncated)[:2 if d['zeta'] else 1]:
                got = fn(y, base, png)
                judge_period(o, got, d, fn.__name__, '%s %r' % (fn.__name__, over))
                if d['noise'] and fn is period.get_period:
                    want = standard_error(tt, d, y - rawdata.wave(tt, d['T'], d['amp'], d['zeta'], d['phase'], d['off']))
                    o.check(abs(sd(got) - want) <= 0.03*want, 'standard-error', lambda: '%r: %r want %r' % (over, sd(got), want))
            o.check(bool(np.all(y == y0)) and bool(np.all(np.asarray(base) == b0)), 'data-changed', str(over))
            o.check(os.path.exists(png), 'plot', str(over))
            o.key(str(sorted(over.items())))
    import matplotlib.pyplot as plt
    o.check(len(plt.get_fignums()) == 0, 'figures-left-open', str(case['items'][0]))
    plt.close('all')
    return o


NAMES = {'Fwheel': 'F', 'Rwheel': 'R', 'Frame': 'B', 'Flywheel': 'D'}


def key_of(part, pend, order, split):
    sub = dict(NAMES, Rod='P')
    sub.update({'Fork': 'S', 'Handlebar': 'G'} if split else {'Fork': 'H'})
    return 'T' + pend[0].lower() + sub[part] + str(rawdata.ORD.index(order) + 1) if part in sub else None


def run_keys(case):
    o = Outcome()
    seen = {}
    for split in (False, True):
        for part, pend, order, ak, rod in itertools.product(list(NAMES) + ['Fork', 'Handlebar', 'Rod'], ['Compound', 'Torsional'], rawdata.ORD, ['angleOrder', 'angle'],
                                                            [None, 'Rod', 'Steelrod']):
            d = {'part': part, 'pendulum': pend, ak: order, 'bicycle': 'Synth'}
            if rod:
                d['rod'] = rod
            if part == 'Rod':
                d['part'] = rod or 'Rod'
            want = key_of(part, pend, order, split)
            before = snap(d)
            how = '%r split=%r' % (d, split)
            if want is None:
                o.check(raises(lambda: period.get_period_key(d, split), KeyError) is not None, 'unsplit-handlebar', how)
                continue
            got = period.get_period_key(d, split)
            o.check(got == want, 'key', lambda: '%s -> %r want %r' % (how, got, want))
            o.check(snap(d) == before, 'key-args', how)
            seen.setdefault((split, got), set()).add((part, pend, order))
            o.key((split, got))
    for k, v in seen.items():
        o.check(len(v) == 1, 'key-collision', '%r %r' % (k, v))
    return o


def run_filenames(case):
    """file names decode to the setup they were given to"""
    o = Outcome()
    for bike, part, pend, order, trial, ext in itertools.product(['Browser', 'Browserins', 'Balanceassistv1', 'Q', 'Ab', 'Yellowrev'], list(NAMES) + ['Fork', 'Handlebar', 'Rod'],
                                                                 ['Compound', 'Torsional'], rawdata.ORD, range(1, 10), ['.mat', '']):
        f = os.path.splitext(rawdata.filename(bike, part, pend, order, trial))[0] + ext
        got = io.filename_to_dict(f)
        o.check(got == {'bicycle': bike, 'part': part, 'pendulum': pend, 'angleOrder': order, 'trial': str(trial)}, 'filename', lambda: '%s -> %r' % (f, got))
        if trial == 1:
            words = [bike, part, pend, order + '1']
            o.check(io.space_out_camel_case(''.join(words), output='list') == words and io.space_out_camel_case(''.join(words)) == ' '.join(words), 'words', f)
            if ext:
                o.key(f)
    o.check(raises(lambda: io.space_out_camel_case('BrowserFrame', output='tuple'), ValueError) is not None, 'words-option', '')
    return o


def run_enough(case):
    o = Outcome()
    cparts = ['TcB1', 'TcF1', 'TcR1', 'TcH1', 'TcS1', 'TcG1', 'TcD1', 'TcP1'] + ['TcB%d' % i for i in range(2, 7)]
    tparts = ['TtB1', 'TtB2', 'TtB3', 'TtF1', 'TtR1', 'TtP1', 'TtH1', 'TtH2', 'TtH3', 'TtS1', 'TtS2', 'TtS3', 'TtG1', 'TtG2', 'TtG3', 'TtD1']
    for nc, nt, split, back in itertools.product(range(14), range(16), (False, True), (False, True)):
        keys = cparts[:nc] + tparts[:nt] + ['w', 'c', 'Tx', 'alphaB1', 'aB1', 'mB', 'tt1', 'tcB1']
        d = {k: 1.0 + i for i, k in enumerate(reversed(keys) if back else keys)}
        before = snap(d)
        want = (nc < 5 or nt < 11) if split else (nc < 4 or nt < 8)
        got = period.check_for_period(d, split)
        o.check(bool(got) == want, 'enough', lambda: 'compound=%d torsional=%d split=%r -> %r' % (nc, nt, split, got))
        o.check(snap(d) == before, 'enough-args', '')
        o.key((nc, nt, split))
    return o


RECS = [('Frame', 'Compound', 'First', 1.1), ('Frame', 'Torsional', 'First', 1.6), ('Frame', 'Torsional', 'Second', 1.9), ('Fork', 'Compound', 'First', 0.9),
        ('Fork', 'Torsional', 'First', 1.3), ('Handlebar', 'Torsional', 'First', 1.45), ('Rod', 'Torsional', 'First', 2.1), ('Flywheel', 'Compound', 'First', 1.75)]


def run_files(case):
    o = Outcome()
    quick_figures()
    for sub, split, form, order in case['items']:
        with Tree() as t:
            raw = t.path('bicycles', 'Synth', 'RawData')
            model, names = {}, []
            counts = {}
            for i in sub:
                part, pend, orien, T = RECS[i]
                counts[i] = counts.get(i, 0) + 1
                TT = T*(1 + 0.05*(counts[i] - 1))
                d = rawdata.recording(part, pend, orien, TT, rate=60/T, n=420, form=form, angle_key='angleOrder' if counts[i] % 2 else 'angle',
                                      rod='Rod', trial=counts[i])
                if form == 'ActualRate' and counts[i] > 1:
                    del d['rod']
                f = rawdata.filename('Synth', part, pend, orien, counts[i])
                rawdata.write_mat(os.path.join(raw, f), d)
                names.append(f)
                model.setdefault(key_of(part, pend, orien, split), []).append(TT)
            files = {k: v for k, v in t.snapshot().items() if 'RawData' in k}
            how = '%r split=%r %s %r' % ([RECS[i][:3] for i in sub], split, form, order)
            if order == 'reversed':
                names = names[::-1]
            got = period.calc_periods_for_files(raw, names, split)
            o.transitions += len(names)
            o.check(set(got) == set(model), 'files-keys', lambda: '%s -> %r want %r' % (how, got, sorted(model)))
            for k, Ts in model.items():
                if k in got:
                    w = sum(Ts)/len(Ts)
                    o.check(abs(nom(got[k]) - w) <= 1e-6*w, 'files-average', lambda: '%s %s -> %r want %r (%r)' % (how, k, got[k], w, Ts))
                    o.check(math.isfinite(sd(got[k])), 'files-deviation', how)
            now = t.snapshot()
            o.check({k: v for k, v in now.items() if 'RawData' in k} == files, 'files-rawdata-changed', how)
            o.validated += 1
            o.key((tuple(sub), split, form, order))
    return o


def run_mat(case):
    """what is stored in a recording is what is read"""
    o = Outcome()
    for form, part, rod, rate in itertools.product(['sampleRate', 'ActualRate', 'time'], ['Frame', 'Rod'], [None, 'Rod'], [100.0, 200, 333.25]):
        with Tree() as t:
            d = rawdata.recording(part, 'Torsional', 'Third', 1.2, rate=rate, n=130, form=form, rod=rod)
            p = t.path('x', 'rec.mat')
            rawdata.write_mat(p, d)
            got = io.load_pendulum_mat_file(p)
            how = '%s %s %r %r -> %r' % (form, part, rod, rate, {k: v for k, v in got.items() if k not in ('data', 'time')})
            gone = {'sampleRate', 'duration'} if form == 'time' else set()
            o.check(set(d) - gone <= set(got) and not (gone & set(got)), 'mat-fields', how)
            for k, v in d.items():
                if k in gone:
                    continue
                if k in ('data', 'time'):
                    o.check(np.shape(got[k]) == np.shape(v) and bool(np.all(got[k] == v)), 'mat-' + k, how)
                elif k == 'notes':
                    continue
                elif isinstance(v, str):
                    o.check(got[k] == v, 'mat-text', how + ' ' + k)
                else:
                    o.check(float(got[k]) == float(v), 'mat-number', how + ' ' + k)
            if form != 'time':
                o.check(float(period.get_sample_rate(got)) == float(rate), 'mat-rate', how)
            o.key((form, part, rod, rate))
    # statistics of a fit
    for y, p in itertools.product([np.array([1.0, 2.0, 4.0, 3.0]), np.array([0.0, 1.0, -1.0, 0.5])], [np.array([1.1, 2.0, 3.9, 3.0]), np.array([0.0, 0.0, 1.0, 0.0])]):
        rsq, SSE, SST, SSR = period.fit_goodness(y, p)
        o.check(abs(SSE - ((y - p)**2).sum()) < 1e-12 and abs(SST - ((y - y.mean())**2).sum()) < 1e-12 and abs(SSR - ((p - y.mean())**2).sum()) < 1e-12
                and abs(rsq - SSR/SST) < 1e-12, 'goodness', '%r %r' % (y, p))
    return o


def run_select(case):
    """the section used for the fit is a contiguous piece from the largest deviation on"""
    o = Outcome()
    for T, zeta, phase, off, pct in itertools.product([0.7, 1.3], [0.002, 0.02, 0.05], [0.0, 1.0, 2.5, -1.5], [0.0, 2.0, -3.0], [0.1, 0.3]):
        t = np.arange(1500)/100.0
        y = rawdata.wave(t, T, 2.0, zeta, phase, off)
        got = period.select_good_data(y, pct)
        m = np.abs(y - y.mean())
        i0 = int(np.argmax(m))
        last = max(i for i in range(len(y)) if (y - y.mean())[i] > pct*m.max())
        o.check(len(got) > 0 and bool(np.all(got == y[i0:i0 + len(got)])), 'select-start', '%r %r %r %r' % (T, zeta, phase, off))
        o.check(abs(i0 + len(got) - last) <= 1, 'select-end', '%r %r %r %r' % (T, zeta, phase, off))
        o.key((T, zeta, phase, off, pct))
    return o


def judge_osfit(o, fig, t, y, fit, rsq, T, m, tol, how):
    import matplotlib.pyplot as plt
    if not o.check(len(fig.axes) >= 1, 'shown-axes', how):
        return
    ax = fig.axes[0]
    curves = [(np.asarray(l.get_xdata(), dtype=float), np.asarray(l.get_ydata(), dtype=float)) for l in ax.lines]
    msg = lambda: how + ' %d curves' % len(curves)
    has = lambda z, e: [i for i, (a, b) in enumerate(curves) if a.shape == t.shape and b.shape == z.shape and np.allclose(a, t, rtol=0, atol=1e-9*np.abs(t).max())
                        and np.allclose(b, z, rtol=0, atol=e)]
    o.check(len(curves) == 2 and has(y, 1e-12) != [] and has(fit, tol) != [], 'shown-curves', msg)
    label = dict(zip([x.get_text() for x in ax.get_legend().get_texts()] if ax.get_legend() else [], ax.lines))
    o.check(set(label) == {'Measured', 'Fit'}, 'shown-legend', lambda: how + ' %r' % sorted(label))
    if len(label) == 2 and len(curves) == 2:
        o.check(np.allclose(label['Measured'].get_ydata(), y, atol=1e-12) and np.allclose(label['Fit'].get_ydata(), fit, atol=tol), 'shown-names', msg)
    title = ax.get_title()
    o.check(rsq is None or '%1.3f' % rsq in title, 'shown-goodness', lambda: how + ' ' + title)
    o.check(T is None or str(T) in title, 'shown-period', lambda: how + ' ' + title)
    if m is not None:
        o.check(np.allclose(ax.get_xlim(), (0, m)), 'shown-limits', lambda: how + ' %r' % (ax.get_xlim(),))
    o.check(ax.get_xlabel().startswith('Time') and ax.get_ylabel() != '', 'shown-axes-labels', msg)


def run_shown(case):
    """the plot of a fit shows the recording and the fitted oscillation, on the figure it was asked for"""
    import matplotlib.figure
    import matplotlib.pyplot as plt
    from uncertainties import ufloat
    quick_figures()
    o = Outcome()
    for given, rival, m, (T, zeta, off) in itertools.product(['none', 'own', 'own-two'], ['none', 'before', 'after'], [None, 2.5, 9.0], [(1.3, 0.002, 0.0), (0.7, 0.02, -2.0)]):
        plt.close('all')
        t = np.linspace(0.0, 5.0, 101)
        y = rawdata.wave(t, T, 2.0, zeta, 0.4, off)
        fit = 0.9*y + 0.01*t
        wo = 2*math.pi/T
        p = np.array([off, 1.7, 0.9, zeta, wo])
        if rival == 'before':
            other = plt.subplots()[0]
        fig = None if given == 'none' else plt.subplots(2 if given == 'own-two' else 1)[0]
        if rival == 'after':
            other = plt.subplots()[0]
        before = (snap(t), snap(y), snap(fit), snap(p))
        period_ = ufloat(T, 0.01)
        got = period.plot_osfit(t, y, fit, p, 0.9876, period_, m=m, fig=fig)
        how = 'plot_osfit figure=%s other=%s m=%r T=%r' % (given, rival, m, T)
        o.check((snap(t), snap(y), snap(fit), snap(p)) == before, 'shown-arguments', how)
        o.check(fig is None or got is fig, 'shown-figure', how)
        judge_osfit(o, got, t, y, fit, 0.9876, period_, m, 1e-12, how)
        if given == 'own-two':
            o.check(not fig.axes[1].has_data(), 'shown-elsewhere', how)
        if rival != 'none':
            o.check(got is not other and not other.axes[0].has_data() and not other.axes[0].get_title(), 'shown-elsewhere', how)
        o.states += 1
        o.key((given, rival, m, T))
    saved = []
    real = matplotlib.figure.Figure.savefig

    def savefig(self, path, *args, **kwargs):
        saved.append((str(path), self, [(np.array(l.get_xdata(), dtype=float), np.array(l.get_ydata(), dtype=float)) for a in self.axes for l in a.lines]))
        return real(self, path, *args, **kwargs)
    matplotlib.figure.Figure.savefig = savefig
    try:
        with Tree() as tree:
            for dev in [{}] + [{k: v} for k in ('T', 'zeta', 'phase', 'off', 'form') for v in MENU[k]]:
                d = dict(DEFAULT, **dev)
                t, y, base = build(d)
                plt.close('all')
                mine = plt.figure()
                del saved[:]
                got = period.get_period(y.copy(), base, tree.path('shown.png'))
                how = 'plot saved for %r' % (dev,)
                o.check(plt.get_fignums() == [mine.number] and not mine.axes, 'shown-figures-left', lambda: how + ' %r' % plt.get_fignums())
                if o.check(len(saved) == 1 and saved[0][0] == tree.path('shown.png'), 'shown-file', lambda: how + ' %r' % [x[0] for x in saved]):
                    x = np.asarray(base, dtype=float) if np.ndim(base) else np.linspace(0.0, (len(y) - 1)/float(base), num=len(y))
                    judge_osfit(o, saved[0][1], x, y, y, None, got, x.max(), 1e-4*d['amp'], how)
                o.states += 1
                o.key(str(dev))
    finally:
        matplotlib.figure.Figure.savefig = real
        plt.close('all')
    return o


def run(case):
    return globals()['run_' + case['kind']](case)


CHUNK = 1


def cases(tier):
    deep = tier != 'quick'
    yield {'kind': 'keys'}
    yield {'kind': 'enough'}
    yield {'kind': 'shown'}
    yield {'kind': 'filenames'}
    yield {'kind': 'mat'}
    yield {'kind': 'select'}
    yield {'kind': 'jac'}
    items = list(deviations(MENU, None, 1))
    pairs = [('form', 'noise'), ('form', 'spp'), ('T', 'spp'), ('phase', 'off'), ('zeta', 'periods'), ('form', 'zeta'), ('form', 'phase'), ('amp', 'off')]
    if deep:
        items = list(deviations(MENU, None, 2))
        items += [{'T': a, 'zeta': b, 'phase': c, 'form': f} for a in MENU['T'] for b in MENU['zeta'] for c in MENU['phase'] for f in ('sampleRate', 'time')]
    else:
        for a, b in pairs:
            items += [{a: x, b: y} for x in MENU[a] for y in MENU[b]]
    for b in chunks(items, 12):
        yield {'kind': 'fit', 'items': b}
    subs = []
    for split in (False, True):
        idx = [i for i in range(len(RECS)) if split or RECS[i][0] != 'Handlebar']
        n = 3 if deep else 2
        for k in range(1, n + 1):
            for s in itertools.combinations_with_replacement(idx, k):
                if max(s.count(x) for x in s) <= 3:
                    subs.append((list(s), split))
        subs.append((idx + idx[:3], split))
        subs += [([i]*3, split) for i in idx] + [([i]*4, split) for i in idx[::3]] + [([i, i, j, i], split) for i, j in zip(idx, idx[1:])]
    items = [(s, sp, ['sampleRate', 'ActualRate', 'time'][i % 3], 'given' if i % 2 else 'reversed') for i, (s, sp) in enumerate(subs)]
    if deep:
        items = [(s, sp, f, od) for s, sp in subs for f in ('sampleRate', 'ActualRate', 'time') for od in ('given', 'reversed')]
    for b in chunks(items, 4):
        yield {'kind': 'files', 'items': [list(x) for x in b]}
