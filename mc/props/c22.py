"""C22: dynamics plots draw the data they claim to show.

Every plotting function is run for every combination of its options on
bounded deviations of models, bicycles and parameter ranges; the data, labels
and shading of the drawn artists are read back and compared with independently
assembled state matrices (residuals, eigenvalue multisets, frequency response)
and with the library's own computed quantities.
"""
import itertools
import math
import re

import numpy as np

from mc import refs
from mc.bikes import load_params, nom, shipped, unc
from mc.engine import Outcome, chunks, raises, snap
from mc.models_common import make
from mc.props.c05 import ref_A
from mc.props.c15 import own

from bicycleparameters import bicycle, plot

ID = 'C22'
LEVEL = 'exploration'
TECHNIQUE = ('exhaustive enumeration of the option combinations of every plotting function x models and bicycles x parameter ranges on the real code, drawn artists '
             'read back and judged against independently assembled state matrices')
LEVEL_NOTE = ('Complete option products (axes given or not, colours, shading, zero hiding with several tolerances, sorting, generic, largest, colour, legend, static '
              'and interactive) x three models / five kinds of bicycles x ranges of speed and of other parameters (stable, unstable, mixed, scalar, array).')
RULE = 'one evaluation = one drawn curve, label or shaded region judged'
ASSUMPTIONS = ['the tolerance of hidden zeros of eigenvector and mode simulation plots given as True is only judged for parts below 1e-14 or above 1e-11']


def plt():
    import matplotlib
    matplotlib.rcParams.update({'figure.max_open_warning': 0})
    import matplotlib.pyplot as p
    return p


def close(a, b, rel=1e-9, tol=1e-12):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    return bool(np.all((np.abs(a - b) <= rel*np.abs(b) + tol) | (np.isnan(a) & np.isnan(b))))


def xy(line):
    return np.asarray(line.get_xdata(), dtype=float), np.asarray(line.get_ydata(), dtype=float)


def rgba(c):
    from matplotlib.colors import to_rgba
    return to_rgba(c)


def at(kind, over, i):
    """plain parameters at sample i"""
    from mc.models_common import BASES
    p = dict(BASES[kind])
    for k, v in over.items():
        p[k] = float(v) if np.isscalar(v) else float(v[i])
    return p


def runs(ok, x):
    """ranges of consecutive true samples"""
    out, i = [], 0
    while i < len(ok):
        if ok[i]:
            j = i
            while j + 1 < len(ok) and ok[j + 1]:
                j += 1
            out.append((i, j))
            i = j + 1
        else:
            i += 1
    return [tuple(sorted((x[i], x[j]))) for i, j in out if j > i]


def same_runs(got, want):
    got = sorted(got)
    want = sorted(want)
    return len(got) == len(want) and all(abs(a - c) < 1e-9 and abs(b - d) < 1e-9 for (a, b), (c, d) in zip(got, want))


def pairs_match(re_, im_, ev, tol):
    """the drawn (real, |imaginary|) pairs are those of the eigenvalues"""
    a = [complex(r, i) for r, i in zip(re_, im_)]
    b = [complex(e.real, abs(e.imag)) for e in ev]
    return refs.same_multiset(np.array(a), np.array(b), tol)


def evtol(A, ev):
    """how well eigenvalues can be compared: worst for repeated ones"""
    gap = 1e-6*(1 + np.max(np.abs(ev)))
    return gap


# ------------------------------------------------------------------- models
def run_parts(case):
    o = Outcome()
    p = plt()
    kind = case['m']
    for over, axgiven, cols, shade, hide, srt in case['items']:
        over = {k: (np.array(v) if isinstance(v, list) else v) for k, v in over.items()}
        m = make(kind)
        pars = snap(m.parameter_set.parameters)
        arr = [k for k, v in over.items() if not np.isscalar(v)]
        n = len(over[arr[0]])
        ax, old = None, 0
        if axgiven:
            fig, axs = p.subplots(1, 2)
            ax = axs[1]
            ax.plot([0.0], [0.0], label='mine')
            old = 1
        before = snap(over)
        names = ['tab:red', 'k', 'C4', 'm'] + ['C%d' % i for i in range(8)]
        colors = names if cols else None
        got = m.plot_eigenvalue_parts(ax=ax, colors=colors, show_stable_regions=shade, hide_zeros=hide, sort_modes=srt, **over)
        how = '%s %r ax=%r colors=%r shade=%r hide=%r sort=%r' % (kind, {k: (v if np.isscalar(v) else (v[0], v[-1], len(v))) for k, v in over.items()}, axgiven, cols, shade,
                                                                   hide, srt)
        o.check(snap(over) == before and snap(m.parameter_set.parameters) == pars, 'parts-args', how)
        if axgiven:
            o.check(got is ax and len(axs[0].lines) == 0 and len(axs[0].collections) == 0, 'parts-axes', how)
        lines = list(got.lines)[old:]
        A = [ref_A(kind, at(kind, over, i)) for i in range(n)]
        ev = [np.linalg.eigvals(a) for a in A]
        ns = len(ev[0])
        if not o.check(len(lines) == 2*ns, 'parts-count', how):
            p.close('all')
            continue
        xs = [xy(l)[0] for l in lines]
        xkey = [k for k in arr if all(close(x, over[k]) for x in xs)]
        o.check(len(xkey) >= 1, 'parts-x', how)
        sym = [k for k in xkey if m.parameter_set.par_strings[k] in got.get_xlabel()]
        o.check(len(sym) >= 1, 'parts-xlabel', lambda: how + ' %r' % got.get_xlabel())
        tol = hide if isinstance(hide, float) else 1e-12
        own_ev, own_vec = m.calc_eigen(**over)
        if srt:
            ima = [l for l in lines if l.get_linestyle() == '--']
            rea = [l for l in lines if l.get_linestyle() == '-']
            own_ev, _ = bicycle.sort_eigenmodes(own_ev, own_vec)
            o.check(len({l.get_label() for l in lines}) == ns and got.get_legend() is not None, 'parts-labels', how)
        else:
            ima = [l for l in lines if rgba(l.get_color()) == rgba('C1')]
            rea = [l for l in lines if rgba(l.get_color()) == rgba('black')]
        if not o.check(len(ima) == ns and len(rea) == ns, 'parts-styles', how):
            p.close('all')
            continue
        by = {l.get_label(): l for l in ima}
        for r in rea:
            i = by.get(r.get_label())
            if not o.check(i is not None, 'parts-pair', how):
                continue
            if srt:
                o.check(rgba(r.get_color()) == rgba(i.get_color()), 'parts-colour', how)
        modes = sorted(by, key=lambda s: int(re.sub(r'\D', '', s)))
        rl = {r.get_label(): xy(r)[1] for r in rea}
        il = {k: xy(l)[1] for k, l in by.items()}
        if set(rl) != set(il):
            p.close('all')
            continue
        if srt and cols:
            for j, k in enumerate(modes):
                o.check(rgba(by[k].get_color()) == rgba(names[j]), 'parts-given-colour', how)
        for j, k in enumerate(modes):
            wr, wi = own_ev[:, j].real.copy(), np.abs(own_ev[:, j].imag)
            if hide:
                wr[np.abs(wr) < tol] = np.nan
                wi[wi < tol] = np.nan
            o.check(close(rl[k], wr) and close(il[k], wi), 'parts-mode-data', lambda: '%s %s\n%r\n%r' % (how, k, rl[k], wr))
            o.states += 1
        for s in range(n):
            r = np.nan_to_num([rl[k][s] for k in modes])
            i = np.nan_to_num([il[k][s] for k in modes])
            t = evtol(A[s], ev[s]) + (tol if hide else 0)
            if kind == 'L':
                t = max(t, 1e-4)
            o.check(pairs_match(r, i, ev[s], t), 'parts-eigenvalues', lambda: '%s sample %d %r %r vs %r' % (how, s, r, i, ev[s]))
        polys = got.collections
        reg = []
        for c in polys:
            for path in c.get_paths():
                vx = path.vertices[:, 0]
                if vx.max() - vx.min() > 1e-9:
                    reg.append((vx.min(), vx.max()))
        x = np.asarray(over[xkey[0]], dtype=float) if xkey else np.arange(n)
        ok = np.all(own_ev.real <= 0, axis=1)
        sure = [abs(np.max(e.real)) > 1e-9 for e in ev]
        if kind != 'L' and all(sure):
            ok = np.array([np.max(e.real) <= 0 for e in ev])
        o.check(same_runs(reg, runs(ok, x) if shade else []), 'parts-shade', lambda: '%s %r want %r' % (how, reg, runs(ok, x)))
        o.check(close(sorted(got.get_xlim()), sorted((x[0], x[-1]))) if x[0] != x[-1] else True, 'parts-xlim', how)
        o.key(how)
        p.close('all')
    return o


def number(text):
    """the complex number in a title"""
    m = re.search(r'([-+]?[\d.]+(?:e[-+]?\d+)?)([-+][\d.]+(?:e[-+]?\d+)?)j', text)
    if m:
        return complex(float(m.group(1)), float(m.group(2)))
    m = re.search(r'[-+]?\d[\d.]*(?:e[-+]?\d+)?', text.split(':')[-1])
    return complex(float(m.group(0)), 0.0) if m else None


def red(title):
    c = rgba(title.get_color())
    return c[0] > 0.9 and c[1] < 0.1


def run_vectors(case):
    o = Outcome()
    p = plt()
    kind = case['m']
    for over, hide in case['items']:
        over = {k: (np.array(v) if isinstance(v, list) else v) for k, v in over.items()}
        m = make(kind)
        pars, before = snap(m.parameter_set.parameters), snap(over)
        arr = [k for k, v in over.items() if not np.isscalar(v)]
        n = len(over[arr[0]]) if arr else 1
        how = '%s %r hide=%r' % (kind, over, hide)
        axes = m.plot_eigenvectors(hide_zeros=hide, **over)
        o.check(snap(over) == before and snap(m.parameter_set.parameters) == pars, 'vectors-args', how)
        tol = hide if isinstance(hide, float) else 1e-13
        for r in range(n):
            A = ref_A(kind, at(kind, over, r))
            ev = np.linalg.eigvals(A)
            scale = np.linalg.norm(A)
            want = [e for e in ev if not (hide and abs(e) < tol)]
            shown = []
            if not o.check(axes.shape == (n, len(want)), 'vectors-shape', lambda: '%s %r want %r' % (how, axes.shape, (n, len(want)))):
                break
            for ax in axes[r]:
                lam = number(ax.get_title())
                shown.append(lam)
                if not o.check(lam is not None and len(ax.lines) == len(ev), 'vectors-lines', how):
                    continue
                e = ev[np.argmin(np.abs(ev - lam))]
                o.check(abs(e.real - lam.real) < 6e-4 and abs(e.imag - lam.imag) < 6e-4, 'vectors-title', lambda: '%s %r %r' % (how, lam, ev))
                c = np.array([l.get_ydata()[-1]*np.exp(1j*l.get_xdata()[-1]) for l in ax.lines])
                o.check(all(len(l.get_xdata()) == 2 and l.get_ydata()[0] == 0 for l in ax.lines), 'vectors-rays', how)
                o.check(abs(np.abs(c).max() - 1) < 1e-9, 'vectors-scale', lambda: '%s %r' % (how, c))
                res = np.linalg.norm(A @ c - e*c)/(scale + 1e-300)/np.linalg.norm(c)
                o.check(res < (1e-5 if kind == 'L' else 1e-7), 'vectors-data', lambda: '%s %r residual %g' % (how, lam, res))
                if abs(e.real) > 1e-9:
                    o.check(red(ax.title) == (e.real > 0), 'vectors-unstable-colour', lambda: how + ' %r' % lam)
                o.states += 1
            o.check(refs.same_multiset(np.array(shown), np.array(want), 1e-3), 'vectors-all', lambda: '%s %r %r' % (how, shown, want))
            if arr:
                lab = axes[r, 0].get_ylabel()
                keys = [k for k in arr if lab.split('=')[0].strip().strip('$') in (k, m.parameter_set.par_strings.get(k))]
                o.check(len(keys) == 1 and abs(float(lab.split('=')[1].strip('$ ')) - over[keys[0]][r]) < 6e-3, 'vectors-row-label', lambda: how + lab)
        leg = axes[0, 0].get_legend()
        if o.check(leg is not None, 'vectors-legend', how):
            texts = [t.get_text() for t in leg.get_texts()]
            o.check([t.strip('$') for t in texts] == list(m.state_vars_latex), 'vectors-legend-names', lambda: how + repr(texts))
            hl = [rgba(h.get_color()) for h in leg.get_lines()]
            o.check(hl == [rgba(l.get_color()) for l in axes[0, 0].lines], 'vectors-legend-order', how)
        o.key(how)
        p.close('all')
    for n in (11, 12, 25):
        err = raises(lambda: make(kind).plot_eigenvectors(v=np.linspace(1.0, 4.0, n)), ValueError)
        o.check(err is not None, 'vectors-too-many', '%s %d' % (kind, n))
    o.check(make(kind).plot_eigenvectors(v=np.linspace(1.0, 4.0, 10)).shape[0] == 10, 'vectors-ten', kind)
    p.close('all')
    return o


def forcing(kind, which):
    nu = 3 if kind == 'L' else 2
    if which is None:
        return None

    def f(t, x):
        u = np.zeros(nu)
        u[which] = 0.3*(which + 1)*math.cos(2*t)
        if which == 1:
            u[0] = -0.2*x[0] + 0.05*t
        return u
    return f


def run_sim(case):
    o = Outcome()
    p = plt()
    kind = case['m']
    for over, ic, which, span in case['items']:
        m = make(kind)
        ns = len(m.state_vars)
        times = np.linspace(*span)
        if span[0] > 2:  # uneven
            times = np.sort(np.append(times, times[:-1] + 0.01))
        x0 = np.zeros(ns)
        for i, v in ic.items():
            x0[int(i)] = v
        b = snap((times, x0, m.parameter_set.parameters, over))
        how = '%s %r ic %r input %r times %r' % (kind, over, ic, which, span)
        axes = m.plot_simulation(times, x0.copy(), input_func=forcing(kind, which), **over)
        fig = axes[0].figure
        o.check(snap((times, x0, m.parameter_set.parameters, over)) == b, 'sim-args', how)
        X, U = m.simulate(times, x0.copy(), input_func=forcing(kind, which), **over)
        # exact solution for no or a time dependent input is C04's; here: which curve is which state
        curves = {}
        seen = []
        for ax in fig.axes:
            yl = ax.get_ylabel()
            leg = ax.get_legend()
            if leg is not None:
                names = [t.get_text().strip('$') for t in leg.get_texts()]
                o.check(len(names) == len(ax.lines), 'sim-legend', how)
                o.check([rgba(h.get_color()) for h in leg.get_lines()] == [rgba(l.get_color()) for l in ax.lines], 'sim-legend-colours', how)
            else:
                names = [yl.split('[')[0].strip().strip('$')]
            unit = re.search(r'\[(.*?)\]', yl)
            if not o.check(unit is not None, 'sim-unit', lambda: how + repr(yl)):
                continue
            for nme, l in zip(names, ax.lines):
                x, y = xy(l)
                o.check(close(x, times), 'sim-time', how)
                curves[nme] = (y, unit.group(1))
                seen.append(nme)
        want = {}
        for j, nme in enumerate(m.input_vars_latex):
            want[nme] = (U[:, j], m.input_units[j])
        for j, nme in enumerate(m.state_vars_latex):
            want[nme] = (X[:, j], m.state_units[j])
        o.check(len(seen) == len(set(seen)) and set(seen) == set(want), 'sim-curves', lambda: '%s %r want %r' % (how, seen, sorted(want)))
        for nme, (y, unit) in curves.items():
            if nme not in want:
                continue
            w, wu = want[nme]
            u = unit.replace('-', '').replace('*', '').lower()
            wu = wu.replace('-', '').lower()
            if 'deg' in u:
                o.check(u.replace('deg', 'rad') == wu, 'sim-unit-kind', lambda: '%s %s %s' % (how, nme, unit))
                w = np.rad2deg(w)
            else:
                o.check(u == wu, 'sim-unit-kind', lambda: '%s %s %s' % (how, nme, unit))
            o.check(close(y, w, 1e-9, 1e-9*np.max(np.abs(w))), 'sim-data', lambda: '%s %s %r want %r' % (how, nme, y[:5], w[:5]))
            o.states += 1
        o.check('[s]' in fig.axes[[i for i, a in enumerate(fig.axes) if a.get_xlabel()][0]].get_xlabel(), 'sim-xlabel', how)
        o.key(how)
        p.close('all')
    return o


def run_modes(case):
    o = Outcome()
    p = plt()
    kind = case['m']
    for over, hide in case['items']:
        m = make(kind)
        times = np.linspace(0.0, 0.6, 13)
        b = snap((times, m.parameter_set.parameters, over))
        how = '%s %r hide=%r' % (kind, over, hide)
        axes = m.plot_mode_simulations(times, hide_zeros=hide, **over)
        o.check(snap((times, m.parameter_set.parameters, over)) == b, 'modes-args', how)
        res = m.simulate_modes(times, **over)
        ev, V = m.calc_eigen(**over)
        A = ref_A(kind, at(kind, over, 0))
        tol = hide if isinstance(hide, float) else 1e-12
        rows = [i for i, e in enumerate(ev) if not (hide and abs(e) < tol)]
        units = sorted(set(m.state_units))
        if not o.check(axes.shape == (len(rows), len(units)), 'modes-shape', lambda: '%s %r' % (how, axes.shape)):
            p.close('all')
            continue
        titles = []
        for r, i in enumerate(rows):
            seen = []
            x0 = np.zeros(len(ev))
            for ax in axes[r]:
                lam = number(ax.get_title())
                if not o.check(lam is not None and abs(lam - ev[i]) < 1.5e-3, 'modes-title', lambda: '%s %r %r' % (how, ax.get_title(), ev[i])):
                    continue
                if abs(ev[i].real) > 1e-9:
                    o.check(red(ax.title) == (ev[i].real > 0), 'modes-unstable-colour', how)
                unit = re.search(r'\[(.*?)\]', ax.get_ylabel())
                if not o.check(unit is not None, 'modes-unit', how):
                    continue
                unit = unit.group(1)
                leg = ax.get_legend()
                o.check(leg is not None and [t.get_text() for t in leg.get_texts()] == [l.get_label() for l in ax.lines], 'modes-legend', how)
                for l in ax.lines:
                    nme = l.get_label().strip('$')
                    if not o.check(nme in m.state_vars_latex, 'modes-name', how + nme):
                        continue
                    j = list(m.state_vars_latex).index(nme)
                    seen.append(j)
                    w = res[i][:, j]
                    if 'deg' in unit:
                        w = np.rad2deg(w)
                    x, y = xy(l)
                    x0[j] = np.deg2rad(y[0]) if 'deg' in unit else y[0]
                    o.check(unit.replace('deg', 'rad') == m.state_units[j], 'modes-unit-kind', lambda: '%s %s [%s]' % (how, nme, unit))
                    o.check(close(x, times) and close(y, w, 1e-9, 1e-12), 'modes-data', lambda: '%s mode %d %s [%s] %r want %r' % (how, i, nme, unit, y[:4], w[:4]))
                    o.states += 1
            o.check(sorted(seen) == list(range(len(ev))), 'modes-states', lambda: '%s %r' % (how, seen))
            # the start of a row is the real part of an eigenvector of its own eigenvalue: (A - l)(A - l*) x = 0
            q = A @ A @ x0 - 2*ev[i].real*(A @ x0) + abs(ev[i])**2*x0
            s = np.linalg.norm(A)**2*max(np.linalg.norm(x0), 1e-12)
            o.check(np.linalg.norm(q) < 1e-6*s + 1e-9, 'modes-eigenvector', lambda: '%s mode %d' % (how, i))
        o.check(all('[s]' in ax.get_xlabel() for ax in axes[-1][:2]), 'modes-xlabel', how)
        o.key(how)
        p.close('all')
    return o


GAINS = ['kTphi_phi', 'kTphi_del', 'kTphi_phid', 'kTphi_deld', 'kTdel_phi', 'kTdel_del', 'kTdel_phid', 'kTdel_deld']


def run_gains(case):
    o = Outcome()
    p = plt()
    for over, given in case['items']:
        over = {k: (np.array(v) if isinstance(v, list) else v) for k, v in over.items()}
        m = make('FB', {g: 0.1*(i + 1) for i, g in enumerate(GAINS)})
        base = dict(m.parameter_set.parameters)
        before = snap((over, base))
        axes = None
        if given:
            fig, axes = p.subplots(2, 4)
        got = m.plot_gains(axes=axes, **over)
        how = '%r given=%r' % ({k: v if np.isscalar(v) else list(v) for k, v in over.items()}, given)
        o.check(snap((over, m.parameter_set.parameters)) == before, 'gains-args', how)
        o.check(not given or got is axes, 'gains-axes', how)
        seen = set()
        xk = [k for k, v in over.items() if k not in GAINS and not np.isscalar(v)]
        for ax in np.ravel(got):
            t = ax.get_title().strip('$')
            ks = [g for g in GAINS if m.parameter_set.par_strings[g] == t]
            if not o.check(len(ks) == 1 and len(ax.lines) == 1, 'gains-title', lambda: how + t):
                continue
            seen.add(ks[0])
            x, y = xy(ax.lines[0])
            v = over.get(ks[0], base[ks[0]])
            hit = [k for k in xk if close(x, over[k])]
            o.check(len(hit) >= 1, 'gains-x', how)
            o.check(close(y, np.broadcast_to(v, x.shape)), 'gains-data', lambda: '%s %s %r want %r' % (how, ks[0], y, v))
            lab = ax.get_xlabel()
            o.check(lab == '' or any(k == lab.strip('$') or m.parameter_set.par_strings[k] == lab.strip('$') for k in hit), 'gains-xlabel', lambda: how + lab)
            o.states += 1
        o.check(seen == set(GAINS), 'gains-all', how)
        o.key(how)
        p.close('all')
    try:
        make('FB').plot_gains(kTdel_phid=np.array([0.0, 1.0]))
        o.fail('gains-no-x')
    except ValueError:
        o.check(True, 'gains-no-x')
    p.close('all')
    return o


def run_ctrb(case):
    o = Outcome()
    p = plt()
    kind = case['m']
    for over, acute, given in case['items']:
        over = {k: (np.array(v) if isinstance(v, list) else v) for k, v in over.items()}
        m = make(kind)
        if not hasattr(m, '_plot_modal_controllability') or not hasattr(m, '_calc_modal_controllability'):
            break  # not public names
        arr = [k for k, v in over.items() if not np.isscalar(v)]
        axes = None
        if given:
            fig, axes = p.subplots(4, 2)
        before = snap((over, m.parameter_set.parameters))
        got = m._plot_modal_controllability(axes=axes, acute=acute, **over)
        how = '%s %r acute=%r' % (kind, {k: v if np.isscalar(v) else list(v) for k, v in over.items()}, acute)
        o.check(snap((over, m.parameter_set.parameters)) == before, 'ctrb-args', how)
        beta = np.rad2deg(m._calc_modal_controllability(acute=acute, **over))
        for i, j in itertools.product(range(4), range(2)):
            x, y = xy(got[i, j].lines[-1])
            o.check(close(x, over[arr[0]]) and close(y, beta[:, i, j]), 'ctrb-data', lambda: '%s %d %d' % (how, i, j))
            o.states += 1
        o.check(all(m.input_vars_latex[j] in got[0, j].get_title() for j in range(2)), 'ctrb-title', how)
        o.check(all(str(i + 1) in got[i, 0].get_ylabel() for i in range(4)), 'ctrb-mode', how)
        o.key(how)
        p.close('all')
    return o


# ----------------------------------------------------------------- bicycles
SETS = {'bench': {}, 'far': {'w': 1.3, 'c': -0.05, 'lam': 0.1, 'zB': -0.6}, 'stable': {'IFyy': 0.9, 'c': 0.1}, 'never': {'IFyy': 0.0, 'IRyy': 0.0, 'c': -0.1}}
NAMED = ['Benchmark', 'Browser', 'Crescendo', 'Pista', 'Yellow']
_B = {}


def bike(name):
    """bicycle with any kind of numbers (shared, treated as read only)"""
    if name not in _B:
        if name in SETS:
            par = {k: v for k, v in dict(refs.BENCH, **SETS[name]).items() if k != 'v'}
            _B[name] = load_params(unc(par, 0.001) if name == 'far' else par, name=name.capitalize())
        else:
            _B[name] = shipped(name)
    return _B[name]


def ref_bike(b, v):
    p = dict(nom(b.parameters['Benchmark']))
    return refs.whipple_ss(p, v=float(v), g=p.get('g', 9.81))


def eig_ok(b, speeds, pairs, tol=1e-6):
    """pairs: [speed][(re, |im|)]"""
    for v, (r, i) in zip(speeds, pairs):
        ev = np.linalg.eigvals(ref_bike(b, v)[0])
        if not pairs_match(r, i, ev, tol*(1 + np.max(np.abs(ev)))):
            return False
    return True


def run_speed(case):
    o = Outcome()
    p = plt()
    for name, speeds, given, generic, largest, color, ls, grid, leg in case['items']:
        b = bike(name)
        sp = np.array(speeds) if isinstance(speeds, list) and len(speeds) % 2 else list(speeds)
        before, sb = own(b.parameters), snap(sp)
        fig, old = None, 0
        if given:
            fig, ax = p.subplots()
            ax.plot([0, 1], [0, 0])
            old = 1
        how = '%s %r given=%r generic=%r largest=%r color=%r ls=%r grid=%r legend=%r' % (name, speeds, given, generic, largest, color, ls, grid, leg)
        got = b.plot_eigenvalues_vs_speed(sp, fig=fig, generic=generic, color=color, largest=largest, linestyle=ls, grid=grid, show_legend=leg)
        o.check(snap(sp) == sb and repr(b.parameters) == repr(before), 'speed-args', how)
        o.check(not given or got is fig, 'speed-figure', how)
        ax = got.axes[0]
        lines = list(ax.lines)[old:]
        s = np.sort(np.asarray(speeds, dtype=float))
        data = [(l,) + xy(l) for l in lines]
        o.check(all(close(x, s) for _, x, _ in data), 'speed-x', how)
        evals, evecs = b.eig(s)
        zero = [(l, y) for l, x, y in data if np.all(y == 0) and l.get_label().startswith('_') and rgba(l.get_color()) == rgba('k') and l.get_linestyle() == '-']
        o.check(len(zero) >= 1, 'speed-zero-line', how)
        mx = np.array([np.max(np.linalg.eigvals(ref_bike(b, v)[0]).real) for v in s])
        if largest:
            d = [(l, y) for l, x, y in data if not (l is zero[0][0])] if zero else []
            if o.check(len(d) == 1, 'speed-largest-count', how):
                o.check(close(d[0][1], mx, 1e-6, 1e-6), 'speed-largest', lambda: '%s %r want %r' % (how, d[0][1], mx))
                o.check(rgba(d[0][0].get_color()) == rgba(color) and d[0][0].get_linestyle() == ls and d[0][0].get_label() == b.bicycleName, 'speed-largest-style', how)
            o.check('Largest' in ax.get_ylabel(), 'speed-ylabel', how)
            o.states += 1
        else:
            wea, cap, cas = bicycle.sort_modes(evals, evecs)
            cols = [color]*3 if generic else ['blue', 'red', 'green']
            want = []
            for w, c in zip((wea, cap, cas), cols):
                e = w['evals'].reshape(len(s), -1)
                for k in range(e.shape[1]):
                    want.append(('--', c, np.abs(e[:, k].imag)))
                    want.append(('-', c, e[:, k].real))
            left = [d for d in data if not (zero and d[0] is zero[0][0])]
            if o.check(len(left) == 8, 'speed-count', lambda: how + ' %d' % len(left)):
                for st, c, y in want:
                    hit = [d for d in left if d[0].get_linestyle() == st and rgba(d[0].get_color()) == rgba(c) and close(d[2], y, 1e-9, 1e-9)]
                    if o.check(len(hit) > 0, 'speed-data', lambda: '%s %s %s %r' % (how, st, c, y)):
                        left.remove(hit[0])
                    o.states += 1
                re_ = np.array([d[2] for d in data if d[0].get_linestyle() == '-' and not (zero and d[0] is zero[0][0])])
                im_ = np.array([d[2] for d in data if d[0].get_linestyle() == '--'])
                if o.check(re_.shape == im_.shape == (4, len(s)), 'speed-styles', how):
                    for k, v in enumerate(s):
                        ev = np.linalg.eigvals(ref_bike(b, v)[0])
                        t = 1e-6*(1 + np.max(np.abs(ev)))
                        o.check(np.allclose(np.sort(re_[:, k]), np.sort(ev.real), atol=t) and np.allclose(np.sort(im_[:, k]), np.sort(np.abs(ev.imag)), atol=t),
                                'speed-eigenvalues', lambda: '%s v=%g %r %r want %r' % (how, v, re_[:, k], im_[:, k], ev))
            if not generic:
                for l, x, y in data:
                    t = l.get_label()
                    if t.startswith('_'):
                        continue
                    o.check(('Imag' in t) == (l.get_linestyle() == '--'), 'speed-label', lambda: how + t)
                    o.check([k for k in ('Weave', 'Capsize', 'Caster') if k in t] == [{'blue': 'Weave', 'red': 'Capsize', 'green': 'Caster'}[l.get_color()]]
                            if l.get_color() in ('blue', 'red', 'green') else False, 'speed-label', lambda: how + t)
                o.check(sum(not l.get_label().startswith('_') for l in lines) == 8, 'speed-labelled', how)
                o.check((ax.get_legend() is not None) == bool(leg), 'speed-legend', how)
                o.check(b.bicycleName in ax.get_title(), 'speed-title', how)
            else:
                o.check(b.bicycleName in [l.get_label() for l in lines], 'speed-generic-label', how)
        if s[0] != s[-1]:
            o.check(close(ax.get_xlim(), (s[0], s[-1])), 'speed-xlim', how)
        o.check(bool(ax.xaxis.get_gridlines()[0].get_visible()) == bool(grid), 'speed-grid', how)
        o.key(how)
        p.close('all')
    return o


def run_plotly(case):
    import plotly.graph_objects as go
    o = Outcome()
    for name, speeds, given, largest, region in case['items']:
        b = bike(name)
        if not hasattr(b, '_plot_eigenvalues_vs_speed_plotly'):
            break  # not a public name, the app's figures are judged by C25
        if speeds == 'edge':
            speeds = sorted(x + d for x in critical(nom_dict(b.parameters['Benchmark'])) for d in (-0.3, -0.03, -0.003, 0.003, 0.03, 0.3)) or [1.0, 2.0]
        before = repr(own(b.parameters))
        fig = None
        if given:
            fig = go.Figure()
            fig.add_trace(go.Scatter(x=[0.0], y=[0.0], name='mine'))
        sp = np.array(speeds)
        got = b._plot_eigenvalues_vs_speed_plotly(sp, fig=fig, show=False, largest=largest, stability_region=region)
        how = '%s %r given=%r largest=%r region=%r' % (name, speeds, given, largest, region)
        o.check(repr(b.parameters) == before and list(sp) == list(speeds), 'plotly-args', how)
        o.check(not given or got is fig, 'plotly-figure', how)
        tr = list(got.data)[1 if given else 0:]
        s = np.sort(np.asarray(speeds, dtype=float))
        evs = [np.linalg.eigvals(ref_bike(b, v)[0]) for v in s]
        mx = np.array([np.max(e.real) for e in evs])
        o.check(all(close(np.asarray(t.x, dtype=float), s) for t in tr), 'plotly-x', how)
        if largest:
            o.check(len(tr) == 1 and close(np.asarray(tr[0].y, dtype=float), mx, 1e-6, 1e-6), 'plotly-largest', how)
            o.key(how)
            continue
        evals, evecs = b.eig(s)
        wea, cap, cas = bicycle.sort_modes(evals, evecs)
        want = []
        for nme, w in (('Weave', wea), ('Capsize', cap), ('Castering', cas)):
            e = w['evals'].reshape(len(s), -1)
            for k in range(e.shape[1]):
                want.append(('Re ' + nme, e[:, k].real))
                want.append(('Im ' + nme, np.abs(e[:, k].imag)))
        left = list(tr)
        o.check(len(left) == 8, 'plotly-count', how)
        for nme, y in want:
            hit = [t for t in left if t.name == nme and close(np.asarray(t.y, dtype=float), y, 1e-9, 1e-9)]
            if o.check(len(hit) > 0, 'plotly-data', lambda: '%s %s %r' % (how, nme, y)):
                left.remove(hit[0])
            o.states += 1
        for t in tr:
            o.check((t.name.startswith('Im')) == (t.line.dash == 'dash'), 'plotly-dash', how)
        re_ = np.array([np.asarray(t.y, dtype=float) for t in tr if t.name.startswith('Re')])
        im_ = np.array([np.asarray(t.y, dtype=float) for t in tr if t.name.startswith('Im')])
        if o.check(re_.shape == im_.shape == (4, len(s)), 'plotly-styles', how):
            for k, ev in enumerate(evs):
                t = 1e-6*(1 + np.max(np.abs(ev)))
                o.check(np.allclose(np.sort(re_[:, k]), np.sort(ev.real), atol=t) and np.allclose(np.sort(im_[:, k]), np.sort(np.abs(ev.imag)), atol=t), 'plotly-eigenvalues', how)
        rects = [tuple(sorted((float(r.x0), float(r.x1)))) for r in got.layout.shapes if r.type == 'rect']
        texts = [a.text for a in got.layout.annotations]
        if np.min(np.abs(mx)) > 1e-9:
            reg = [r for r in runs(mx < 0, s) if r[1] - r[0] > 1.01e-4]
            o.check(same_runs(rects, reg if region else []), 'plotly-shade', lambda: '%s %r want %r' % (how, rects, reg))
            o.check(any('No stab' in (t or '') for t in texts) == (region and not reg), 'plotly-no-region', lambda: how + repr(texts))
        o.key(how)
    return o


NAMES_Y = ['Roll Angle', 'Steer Angle', 'Roll Rate', 'Steer Rate']
NAMES_U = ['Roll Torque', 'Steer Torque']


def response(b, v, u, y, w):
    A, B = ref_bike(b, v)
    I = np.eye(4)
    return np.array([np.linalg.solve(1j*f*I - A, B[:, u])[y] for f in w])


def judge_bode(o, b, v, u, y, lm, lp, how, sig, first=False):
    w, mag = xy(lm)
    w2, ph = xy(lp)
    o.check(close(w, w2) and len(w) >= 100 and np.all(np.diff(w) > 0), sig + '-frequency', how)
    k = np.unique(np.linspace(0, len(w) - 1, 41).astype(int))
    G = response(b, v, u, y, w[k])
    o.check(close(mag[k], 20*np.log10(np.abs(G)), 1e-6, 1e-6), sig + '-magnitude', lambda: '%s %r want %r' % (how, mag[k][:4], 20*np.log10(np.abs(G))[:4]))
    d = (ph[k] - np.rad2deg(np.angle(G)))/360.0
    o.check(np.max(np.abs(d - np.round(d))) < 1e-6, sig + '-phase', lambda: '%s %r want %r' % (how, ph[k][:4], np.rad2deg(np.angle(G))[:4]))
    o.check(np.max(np.abs(np.diff(ph))) <= 180.0 + 1e-6, sig + '-phase-continuous', how)
    if first:
        o.check(-180.0 - 1e-6 <= ph[0] <= 180.0 + 1e-6, sig + '-first-phase', lambda: '%s %r' % (how, ph[0]))
    o.states += 1


def run_bode(case):
    o = Outcome()
    p = plt()
    for name, what, arg, u, y, given in case['items']:
        b = bike(name)
        before = repr(own(b.parameters))
        how = '%s %s %r u=%d y=%d given=%r' % (name, what, arg, u, y, given)
        fig = p.subplots(2, 1, sharex=True)[0] if given else None
        if what == 'plot':
            kw = {} if fig is None else {'fig': fig, 'label': 'lab', 'title': 'own title', 'color': 'red'}
            mag, ph, got = b.plot_bode(arg, u, y, **kw)
            o.check(fig is None or got is fig, 'bode-figure', how)
            ax = got.axes
            judge_bode(o, b, arg, u, y, ax[0].lines[-1], ax[1].lines[-1], how, 'bode')
            o.check(close(mag, xy(ax[0].lines[-1])[1]) and close(ph, xy(ax[1].lines[-1])[1]), 'bode-returned', how)
            t = ax[0].get_title()
            o.check(t == 'own title' if given else (t.find(NAMES_U[u]) >= 0 and t.find(NAMES_Y[y]) > t.find(NAMES_U[u])), 'bode-title', lambda: how + t)
            if given:
                o.check(all(l.get_label() == 'lab' and rgba(l.get_color()) == rgba('red') for l in (ax[0].lines[-1], ax[1].lines[-1])), 'bode-options', how)
            o.check('dB' in ax[0].get_ylabel() and 'deg' in ax[1].get_ylabel() and 'rad/s' in ax[1].get_xlabel(), 'bode-units', how)
        else:
            if what == 'speeds':
                got = b.compare_bode_speeds(list(arg), u, y, fig=fig)
                lab = [(b, v, '%s' % v) for v in arg]
            else:
                bs = [bike(n) for n in arg[0]]
                got = plot.compare_bode_bicycles(bs, arg[1], u, y, fig=fig)
                lab = [(x, arg[1], x.bicycleName) for x in bs]
            o.check(got is not None and (fig is None or got is fig), 'compare-figure', how)
            m, ph = got.axes[0].lines, got.axes[1].lines
            if o.check(len(m) == len(ph) == len(lab), 'compare-count', how):
                for a, c, (bb, v, t) in zip(m, ph, lab):
                    judge_bode(o, bb, v, u, y, a, c, how, 'compare', first=True)
                    o.check(t in a.get_label() and t in c.get_label(), 'compare-label', how)
        o.check(repr(b.parameters) == before, 'bode-args', how)
        o.key(how)
        p.close('all')
    return o


def run_shifted(case):
    """phases are matched around zero, whatever multiple of a turn the single curves start at"""
    import types
    o = Outcome()
    p = plt()
    real = bike(case['bike'])
    for offs in case['items']:
        calls = []

        def fake(self, speed, u, y, label=None, title=None, fig=None, **kw):
            if fig is None:
                fig = p.subplots(2, 1, sharex=True)[0]
            f = offs[len(calls)]
            calls.append(label)
            fig.axes[0].plot([1.0, 2.0, 3.0], [1.0, 2.0, 4.0], label=label)
            fig.axes[1].plot([1.0, 2.0, 3.0], [f, f + 200.0, f - 170.5], label=label)
            return np.array([1.0, 2.0, 4.0]), np.array([f, f + 200.0, f - 170.5]), fig
        for what in ('bikes', 'speeds'):
            calls.clear()
            bs = []
            for i in range(len(offs)):
                b = load_params(dict(real.parameters['Benchmark']), name='Bike%d' % i)
                b.plot_bode = types.MethodType(fake, b)
                bs.append(b)
            fig = plot.compare_bode_bicycles(bs, 5.0, 0, 0) if what == 'bikes' else bs[0].compare_bode_speeds([float(i + 1) for i in range(len(offs))], 0, 0)
            how = '%s %r' % (what, offs)
            lines = fig.axes[1].lines
            if not calls:  # the comparison does not go through plot_bode
                o.trivial += 1
                continue
            if not o.check(len(lines) == len(offs) and len(calls) == len(offs), 'shift-count', how):
                continue
            for l, f in zip(lines, offs):
                x, yy = xy(l)
                k = (yy - np.array([f, f + 200.0, f - 170.5]))/360.0
                o.check(np.ptp(k) < 1e-9 and abs(k[0] - round(k[0])) < 1e-9, 'shift-turns', lambda: '%s %r' % (how, yy))
                o.check(abs(yy[0]) <= 180.0 + 1e-9, 'shift-first', lambda: '%s %r starts at %r' % (how, f, yy[0]))
            o.check(all(close(xy(l)[1], [1.0, 2.0, 4.0]) for l in fig.axes[0].lines), 'shift-magnitude', how)
            o.key((what, tuple(offs)))
            p.close('all')
    return o


def run_compare(case):
    o = Outcome()
    p = plt()
    for names, speeds, colors, styles, largest in case['items']:
        bs = [bike(n) for n in names]
        sp = np.array(speeds)
        how = '%r %r colors=%r styles=%r largest=%r' % (names, speeds, colors, styles, largest)
        cl = ['C%d' % (i + 1) for i in range(len(bs))] if colors else None
        st = ['--', ':', '-.'][:len(bs)] if styles else None
        fig = plot.plot_eigenvalues(bs, sp, colors=cl, linestyles=st, largest=largest)
        s = np.sort(sp)
        ax = fig.axes[0]
        o.check(len(fig.axes) == 1 and list(sp) == list(speeds), 'compare-eig-axes', how)
        data = [(l,) + xy(l) for l in ax.lines]
        o.check(all(close(x, s) for _, x, _ in data), 'compare-eig-x', how)
        rest = [d for d in data if not (np.all(d[2] == 0) and rgba(d[0].get_color()) == rgba('k'))]
        o.check(len(data) - len(rest) >= 1, 'compare-eig-zero', how)
        allc = []
        for i, b in enumerate(bs):
            mine = None
            mx = np.array([np.max(np.linalg.eigvals(ref_bike(b, v)[0]).real) for v in s])
            lab = [d for d in rest if d[0].get_label() == b.bicycleName]
            if not o.check(len(lab) >= 1, 'compare-eig-label', lambda: how + b.bicycleName):
                continue
            color = rgba(lab[0][0].get_color())
            allc.append(color)
            if colors:
                o.check(color == rgba(cl[i]), 'compare-eig-colour', how)
            mine = [d for d in rest if rgba(d[0].get_color()) == color]
            if largest:
                o.check(len(mine) == 1 and close(mine[0][2], mx, 1e-6, 1e-6), 'compare-eig-largest', how)
                if styles:
                    o.check(mine[0][0].get_linestyle() == st[i], 'compare-eig-style', how)
            elif o.check(len(mine) == 8, 'compare-eig-count', lambda: how + ' %d' % len(mine)):
                re_ = np.array([d[2] for d in mine if d[0].get_linestyle() == '-'])
                im_ = np.array([d[2] for d in mine if d[0].get_linestyle() == '--'])
                if o.check(re_.shape == im_.shape, 'compare-eig-styles', how):
                    for k, v in enumerate(s):
                        ev = np.linalg.eigvals(ref_bike(b, v)[0])
                        t = 1e-6*(1 + np.max(np.abs(ev)))
                        o.check(np.allclose(np.sort(re_[:, k]), np.sort(ev.real), atol=t) and np.allclose(np.sort(im_[:, k]), np.sort(np.abs(ev.imag)), atol=t),
                                'compare-eig-data', how)
            o.states += 1
        o.check(len(set(allc)) == len(bs), 'compare-eig-colours', how)
        o.key(how)
        p.close('all')
    return o


def run(case):
    import matplotlib
    matplotlib.rcParams.update({'figure.dpi': 20, 'text.parse_math': False})
    try:
        return globals()['run_' + case['kind']](case)
    finally:
        plt().close('all')


CHUNK = 1
CASE_TIMEOUT = 1500


def nom_dict(par):
    return {k: float(getattr(v, 'nominal_value', v)) for k, v in par.items()}


def critical(par):
    """speeds at which the number of unstable modes of a bicycle changes"""
    def unstable(v):
        return int(np.sum(np.linalg.eigvals(refs.whipple_ss(dict(par, v=v))[0]).real > 0))
    out = []
    grid = np.linspace(0.5, 10.0, 96)
    for a, b in zip(grid[:-1], grid[1:]):
        if unstable(a) != unstable(b):
            n = unstable(a)
            for _ in range(40):
                m = 0.5*(a + b)
                a, b = (m, b) if unstable(m) == n else (a, m)
            out.append(float(a))
    return out


def lin(a, b, n):
    return [float(x) for x in np.linspace(a, b, n)]


def cases(tier):
    deep = tier != 'quick'
    # eigenvalue parts
    edge = sorted(x + d for x in critical(refs.MEIJ) for d in (-0.3, -0.03, -0.003, 0.003, 0.03, 0.3))
    rngs = {'W': [{'v': lin(0.0, 10.0, 11)}, {'v': lin(4.0, 9.0, 6)}, {'v': [9.0, 6.5, 3.0, 7.0]}, {'c': lin(0.02, 0.15, 7), 'v': 6.5},
                  {'v': [5.0, 6.0, 7.0, 8.0], 'w': [1.0, 1.1, 1.2, 1.05]}, {'v': [-3.0, 0.0, 3.0]}, {'g': [0.0, 5.0, 9.81], 'v': 6.0}, {'v': edge}, {'v': [3, 5, 8]}],
            'FB': [{'v': lin(0.0, 10.0, 9)}, {'kTdel_phid': lin(-60.0, 0.0, 7), 'v': 3.0}, {'v': [2.0, 5.0, 8.0], 'kTdel_phid': [-40.0, -10.0, 0.0]},
                   {'kTdel_deld': [0.0, -5.0], 'v': 5.0}, {'v': [2, 5, 8], 'kTdel_phid': -9.5}, {'kTdel_phid': [-40, -10, 0], 'v': 3}],
            'L': [{'v': lin(2.0, 9.0, 5)}, {'v': 6.0, 'k9': [0.0, 400.0, 1000.0], 'c9': 50.0}]}
    hides = [False, True, 1e-3, 0.8]
    for kind in ('W', 'FB', 'L'):
        items = []
        for k, (r, (ag, co, sh, hi, so)) in enumerate(itertools.product(rngs[kind], itertools.product((False, True), (False, True), (True, False), hides, (True, False)))):
            if not deep:
                # quick: covers every pair of options with every range
                if kind == 'L' and (ag or (co and not so)):
                    continue
                if kind != 'L' and (ag + 2*co + (not sh) + hides.index(hi) + (not so)) % (2 if rngs[kind].index(r) else 1):
                    continue
            items.append((r, ag, co, sh, hi, so))
        for b in chunks(items, 12 if kind != 'L' else 4):
            yield {'kind': 'parts', 'm': kind, 'items': [list(x) for x in b]}
    vec = {'W': [{}, {'v': 6.0}, {'v': [1.0, 3.0, 5.0]}, {'v': [0.0, 6.5]}, {'v': [3, 7]}, {'v': 6}, {'c': [0.03, 0.06], 'v': 7.0}, {'g': 5.0}, {'v': [2.0]}],
           'FB': [{'v': 4.0}, {'v': [2.0, 8.0]}, {'kTdel_phid': [-30.0, 0.0], 'v': 3.0}], 'L': [{'v': 5.0}, {'v': [4.0, 8.0]}]}
    for kind in vec:
        items = [(v, h) for v in vec[kind] for h in ((False, 1e-3) if kind == 'L' else (False, True, 1e-6))]
        for b in chunks(items, 4 if kind != 'L' else 1):
            yield {'kind': 'vectors', 'm': kind, 'items': [list(x) for x in b]}
    for kind in ('W', 'FB', 'L'):
        ns = 12 if kind == 'L' else 4
        ics = [{str(i): 0.1} for i in range(ns)] + [{str(i): 0.01*(i + 1) for i in range(ns)}]
        if kind == 'L' and not deep:
            ics = ics[3::2] + ics[-1:]
        items = [(ov, ic, w) for ov in ({'v': 6.0}, {'v': 3.0}) for ic in ics for w in [None] + list(range(3 if kind == 'L' else 2)) if deep or not (kind == 'L' and w == 0)]
        items = [x + ([[0.0, 1.5, 31], [2.0, 3.0, 11], [-1.0, 0.5, 16], [5.0, 5.6, 7], [0.0, 4.0, 5], [-3.0, 5.0, 9]][i % 6 if i % 3 else 0],) for i, x in enumerate(items)]
        for b in chunks(items, 6):
            yield {'kind': 'sim', 'm': kind, 'items': [list(x) for x in b]}
        items = [(ov, h) for ov in ({}, {'v': 6.0}, {'v': 3.0}, {'v': 0.0}, {'v': 5}, {'v': 7.0, 'g': 3.0}) for h in (False, True, 1e-6, 2.0)
                 if not (kind == 'L' and (ov.get('v') == 0.0 or (not deep and (h in (False, True) or len(ov) != 1))))]
        for b in chunks(items, 4 if kind != 'L' else 1):
            yield {'kind': 'modes', 'm': kind, 'items': [list(x) for x in b]}
    v = lin(1.0, 5.0, 4)
    g1, g2 = [0.5, 1.5, -2.0, 3.0], [-9.0, 4.0, 0.0, 1.0]
    items = [({'v': v}, gv) for gv in (False, True)] + [({'v': [1, 3, 6]}, False)]
    for g in GAINS:
        items += [({'v': v, g: g1}, False), ({g: g1, 'v': v}, True), ({'v': [1, 2, 4], g: 7.5}, False), ({g: [3, -1, 2], 'v': [1.5, 2.5, 4.5]}, False), ({'w': [1.0, 1.1, 1.2, 1.3], g: 7.5}, False)]
    for a, b in itertools.combinations(GAINS, 2) if deep else list(itertools.combinations(GAINS, 2))[::3]:
        items.append(({a: g1, 'v': v, b: g2}, False))
    items.append(({'v': v, 'c': [0.01, 0.02, 0.03, 0.05], GAINS[3]: g1}, False))
    for b in chunks(items, 8):
        yield {'kind': 'gains', 'items': [list(x) for x in b]}
    items = [(ov, ac, gv) for ov in ({'v': lin(1.0, 9.0, 6)}, {'c': [0.03, 0.05, 0.08], 'v': 5.0}) for ac in (True, False) for gv in (False, True)]
    for kind in ('W', 'FB'):
        yield {'kind': 'ctrb', 'm': kind, 'items': [list(x) for x in items]}
    # bicycles
    names = list(SETS) + NAMED
    sps = [lin(0.0, 10.0, 21), [8.0, 2.0, 5.0, 6.0, 3.5], lin(4.0, 7.0, 7), [-6.5, -1.0, 4.5, -3.0]]
    items = []
    for i, nme in enumerate(names):
        for j, s in enumerate(sps):
            for gv, ge, la, (co, ls), (gr, lg) in itertools.product((False, True), (False, True), (False, True), (('black', '-'), ('C3', '--')), ((False, True), (True, False))):
                if deep or (i < 2 and j < 2) or (i + j + gv + 2*ge + la + (co == 'C3') + gr) % 4 == 0:
                    items.append((nme, s, gv, ge, la, co, ls, gr, lg))
    for b in chunks(items, 16):
        yield {'kind': 'speed', 'items': [list(x) for x in b]}
    items = [(nme, s, gv, la, rg) for nme in names for s in sps for gv, la, rg in itertools.product((False, True), (False, True), (True, False))]
    items += [(nme, 'edge', gv, False, rg) for nme in names for gv in (False, True) for rg in (True, False)]
    for b in chunks(items, 24):
        yield {'kind': 'plotly', 'items': [list(x) for x in b]}
    items = []
    for nme in names if deep else ('bench', 'far', 'Browser'):
        for u, y, gv in itertools.product((0, 1), range(4), (False, True)):
            for v in (0.5, 3.0, 5.5, 9.0):
                if deep or (v in (3.0, 5.5) and nme != 'far') or gv:
                    items.append((nme, 'plot', v, u, y, gv))
            items.append((nme, 'speeds', [2.0, 4.5, 8.0] if gv else [6.0], u, y, gv))
            items.append((nme, 'bikes', [['bench', 'far', 'Crescendo'] if gv else ['Browser', 'stable'], 4.0 + u], u, y, gv))
    for b in chunks(items, 12):
        yield {'kind': 'bode', 'items': [list(x) for x in b]}
    ph = [float(x) for x in range(-1080, 1081, 45) if x % 180] + [0.0] + [x + d for x in range(-1080, 1081, 180) for d in (-0.01, 0.01)] + [179.9, 180.1, -179.9, -180.1, 359.9, 360.1, -540.1, 1e-9, 269.9]
    for b in chunks([[x] for x in ph] + [list(x) for x in itertools.product((-530.0, -270.0, -30.0, 100.0, 200.0, 400.0), repeat=2)] + [[200.0, 560.0, -200.0]], 60):
        yield {'kind': 'shifted', 'bike': 'bench', 'items': b}
    items = [(ns, s, co, st, la) for ns in (['bench'], ['bench', 'far'], ['Browser', 'Pista', 'stable'], ['never', 'Yellow']) for s in sps[:3] for co, st, la in
             itertools.product((False, True), (False, True), (False, True))]
    for b in chunks(items, 12):
        yield {'kind': 'compare', 'items': [list(x) for x in b]}
