"""C27: an answer depends on the question alone.

The public interface is a set of calls on a world of objects (dictionaries,
arrays, parameter sets, models, bicycles, files).  Every call is made after
every other call whose answer was then overwritten by its owner, after every
change of the world, and on a world of its own; the answers have to agree, and
a call may change nothing but what it is there to change.
"""
import gc
import itertools
import os
import pickle
import random
import shutil
import sys

import numpy as np
from uncertainties import ufloat

import bicycleparameters as bp
from bicycleparameters import bicycle, com, geometry, inertia, io, models, parameter_sets as psets, period, plot, rider, tables
from bicycleparameters import main as bpmain
from mc import measure, rawdata, refs
from mc.bikes import DATA, scratch, unc, write_par
from mc.engine import Outcome, chunks
from mc.models_common import make_set

ID = 'C27'
LEVEL = 'model_checking'
TECHNIQUE = ('explicit-state exploration of call histories on the real code: every ordered pair of calls of the public interface, every call repeated after every change of '
             'the objects it is asked about, answers overwritten in between, each history in a process of its own; answers compared with those of a fresh process')
LEVEL_NOTE = ('All ordered pairs of the calls (about 150, all parts of the library but the web app), all (call, change, same call) over 15 changes, thorough: all (call, '
              'change, call) and all triples of the calculations.')
RULE = 'a state is the history of calls and changes of a process; one transition is one call or change; answer, arguments, other objects and process settings judged'
ASSUMPTIONS = ['the style settings of the plotting package are not judged']
CHUNK = 1
CASE_TIMEOUT = 3000

SPEEDS = [0.5, 2.0, 4.5, 7.0]
PAR = {k: v for k, v in refs.BENCH.items() if k != 'v'}


# -------------------------------------------------------------------- world
def tree(root):
    """the files of the world"""
    write_par(os.path.join(root, 'bicycles', 'Synth', 'Parameters', 'SynthBenchmark.txt'), PAR)
    write_par(os.path.join(root, 'bicycles', 'Other', 'Parameters', 'OtherBenchmark.txt'), unc(dict(PAR, mB=60.0, xB=0.2, w=1.3)))
    mp = measure.measure(measure.BASE, True, 'w')
    d = os.path.join(root, 'bicycles', 'Raw', 'RawData')
    os.makedirs(d)
    with open(os.path.join(d, 'RawMeasured.txt'), 'w') as f:
        f.write(''.join('%s = %r\n' % (k, float(v)) for k, v in sorted(mp.items())))
    ann = {'IBxx': 8.0, 'IByy': 8.1, 'IBzz': 2.4, 'IBxz': -1.9, 'mB': 72.0, 'xB': 0.29, 'yB': 0.0, 'zB': -1.1}
    for b in ('Synth', 'Other', 'Raw'):
        write_par(os.path.join(root, 'riders', 'Ann', 'Parameters', 'Ann%sBenchmark.txt' % b), ann)
    rawdata.write_mat(os.path.join(root, 'one.mat'), rawdata.recording('Rwheel', 'Compound', 'First', 1.3, n=600))
    with open(os.path.join(root, 'set.yml'), 'w') as f:
        f.write('values:\n' + ''.join('  %s: %r\n' % kv for kv in sorted(refs.MEIJ.items())))


def quick(x):
    """comparable snapshot"""
    if isinstance(x, dict):
        return [(k, quick(v)) for k, v in x.items()]
    if isinstance(x, np.ndarray):
        return (x.shape, x.dtype.str, x.tobytes()) if x.dtype != object else [quick(v) for v in x.ravel().tolist()]
    if isinstance(x, (list, tuple)):
        return [quick(v) for v in x]
    if hasattr(x, 'nominal_value'):
        return (x.nominal_value, x.std_dev)
    return x


class World(object):
    """everything the calls are asked about"""

    def __init__(self, root):
        self.root = root
        self.par = dict(PAR)
        self.upar = unc(PAR)
        self.rider = {'IBxx': 8.0, 'IByy': 8.1, 'IBzz': 2.4, 'IBxz': -1.9, 'mB': 72.0, 'xB': 0.29, 'yB': 0.0, 'zB': -1.1}
        self.mp = measure.measure(measure.BASE, True, 'w')
        self.mpabc = measure.measure(measure.BASE, False, 'abc')
        self.M, self.C1, self.K0, self.K2 = [np.array(x) for x in (refs.BENCH_M, refs.BENCH_C1, refs.BENCH_K0, refs.BENCH_K2)]
        self.A = np.array([np.linalg.matrix_power(np.diag([1.0, -2.0, 0.5, -0.1]) + np.eye(4, k=1), 1) + i*np.eye(4, k=-1)*0.2 for i in range(3)])
        self.ev, self.evec = np.linalg.eig(self.A.astype(complex))
        self.slopes, self.cuts = np.array([0.4, -1.3, 2.1, -0.2]), np.array([0.1, 0.75, -0.71, 0.33])
        self.pts, self.masses = np.array([[0.1, 0.9, -0.4], [0.1, -0.2, 0.3], [-1.0, -0.3, 0.4]]), np.array([2.0, 5.5, 0.4])
        self.I, self.d = refs.tensor(0.5, -0.1, 1.3, 0.8), np.array([0.3, -0.2, 0.9])
        self.line = np.array([[0.2, 1.0], [0.4, -0.5], [-0.1, 0.7]])
        self.vec = np.array([1.0, -0.5, 0.7])
        self.axes3 = [np.array([1.0, 2.0, 3.0]), np.array([4.0, 5.0])]
        self.t = np.arange(600)/200.0
        self.signal = rawdata.wave(self.t, 0.9, zeta=0.01, off=1.5)
        self.sets = {'W': make_set('W'), 'FB': make_set('FB'), 'L': make_set('L'), 'P': psets.Moore2019ParameterSet({k: float(v) for k, v in refs.M2019.items()})}
        self.models = {'W': models.Meijaard2007Model(self.sets['W']), 'FB': models.Meijaard2007WithFeedbackModel(self.sets['FB']),
                       'L': models.MooreRiderLean2012Model(self.sets['L'])}
        self.speeds = np.array(SPEEDS)
        self.times = np.linspace(0.0, 0.4, 5)
        self.x0 = np.array([0.0, 0.1, 0.2, 0.0])
        self.bike = bp.Bicycle('Synth', pathToData=root)
        self.other = bp.Bicycle('Other', pathToData=root)
        self.n = 0

    def state(self):
        """everything the user owns"""
        out = {k: v for k, v in self.__dict__.items() if k not in ('sets', 'models', 'bike', 'other', 'n')}
        for k, s in self.sets.items():
            out['set ' + k] = s.parameters
            out['attr ' + k] = {a: getattr(s, a, None) for a in ('includes_rider', 'name')}
        for k in ('bike', 'other'):
            b = getattr(self, k)
            out[k] = [b.parameters, b.hasRider, b.directory, b.bicycleName, getattr(b, 'riderName', None)]
        return {k: quick(v) for k, v in out.items()}

    def file(self, ext):
        self.n += 1
        return os.path.join(self.root, 'out%d' % self.n, 'f' + ext)


def plt():
    import matplotlib
    matplotlib.rcParams.update({'figure.max_open_warning': 0, 'text.parse_math': False, 'figure.dpi': 20})
    import matplotlib.pyplot as p
    return p


def text_of(fn, ext):
    """calls fn(path), returns what was written there"""
    def call(w):
        path = w.file(ext)
        os.makedirs(os.path.dirname(path))
        try:
            fn(w, path)
            with open(path) as f:
                return f.read()
        finally:
            shutil.rmtree(os.path.dirname(path))
    return call


OPS = {}


def op(name, fn, kind='calc'):
    OPS[name] = (fn, kind)


op('canonical-fn', lambda w: bicycle.benchmark_par_to_canonical(w.par))
op('canonical-unc', lambda w: bicycle.benchmark_par_to_canonical(w.upar))
op('ab', lambda w: bicycle.ab_matrix(w.M, w.C1, w.K0, w.K2, 3.3, 9.81))
op('ab-0', lambda w: bicycle.ab_matrix(w.M, w.C1, w.K0, w.K2, 0.0, 9.81))
op('lambda', lambda w: bicycle.lambda_from_abc(0.33, 0.36, 0.9, 0.07, 0.4))
op('trail', lambda w: bicycle.trail(0.33, 0.35, 0.05))
op('sort', lambda w: bicycle.sort_eigenmodes(w.ev, w.evec))
op('sort-modes', lambda w: bicycle.sort_modes(w.ev, w.evec))
op('cartesian', lambda w: com.cartesian(w.axes3))
op('com', lambda w: com.center_of_mass(w.slopes, w.cuts))
op('com-line', lambda w: com.com_line(75.0, 0.11, w.par, 'B', 0.03, 0.9))
op('com-lines', lambda w: com.part_com_lines(w.mp, w.par, True))
op('total-com', lambda w: com.total_com(w.pts, w.masses))
op('geometry-w', lambda w: geometry.calculate_benchmark_geometry(w.mp, {}))
op('geometry-abc', lambda w: geometry.calculate_benchmark_geometry(w.mpabc, {'rF': 0.344, 'rR': 0.341}))
op('abc', lambda w: geometry.calculate_abc_geometry((0.55, 0.1, 0.07, 0.14, 0.08), (0.037, 0.01, 0.011, 0.028, 0.7)))
op('l1l2', lambda w: geometry.calculate_l1_l2(0.15, 0.12, 0.01, 0.022, 0.93))
op('links', lambda w: geometry.calc_two_link_angles(0.4, 0.5, 0.7))
op('handlebar', lambda w: geometry.fwheel_to_handlebar_ref(0.4, -0.02, 0.93))
op('fundamental', lambda w: geometry.fundamental_geometry_plot_data(w.par))
op('steer-distance', lambda w: geometry.distance_to_steer_axis(1.1, 0.07, 0.35, w.d))
op('line-distance', lambda w: geometry.point_to_line_distance(w.d, w.line))
op('vec-angle', lambda w: geometry.vec_angle(w.d, w.vec))
op('vec-project', lambda w: geometry.vec_project(w.d, w.vec))
op('combine', lambda w: inertia.combine_bike_rider(w.par, w.rider))
op('combine-unc', lambda w: inertia.combine_bike_rider(w.upar, w.rider))
op('compound', lambda w: inertia.compound_pendulum_inertia(3.1, 9.81, 0.3, 1.4))
op('components', lambda w: inertia.inertia_components(w.slopes, w.cuts))
op('parallel', lambda w: inertia.parallel_axis(w.I, 3.0, w.d))
op('part-H', lambda w: inertia.part_inertia_tensor(w.par, 'H'))
op('part-F', lambda w: inertia.part_inertia_tensor(w.par, 'F'))
op('principal', lambda w: inertia.principal_axes(w.I))
op('rotate', lambda w: inertia.rotate_inertia_tensor(w.I, 0.7))
op('tor', lambda w: inertia.tor_inertia(4.9, 1.3))
op('stiffness', lambda w: inertia.torsional_pendulum_stiffness(0.3, 0.95))
op('tube', lambda w: inertia.tube_inertia(0.84, 4.6, 0.015, 0.004))
op('filename', lambda w: io.filename_to_dict('BrowserForkCompoundFirst1.mat'))
op('load-text', lambda w: io.load_parameter_text_file(os.path.join(w.root, 'bicycles', 'Synth', 'Parameters', 'SynthBenchmark.txt')))
op('load-unc', lambda w: io.load_parameter_text_file(os.path.join(w.root, 'bicycles', 'Other', 'Parameters', 'OtherBenchmark.txt')))
op('load-mat', lambda w: io.load_pendulum_mat_file(os.path.join(w.root, 'one.mat')))
op('strip', lambda w: io.remove_uncertainties(w.upar))
op('camel', lambda w: io.space_out_camel_case('RearWheelXX', output='list'))
op('write-par', text_of(lambda w, p: io.write_parameter_text_file(p, w.upar), '.txt'))
op('parts', lambda w: bpmain.get_parts_in_parameters(w.par))
op('from-measured', lambda w: bpmain.calculate_benchmark_from_measured(w.mp), 'slow')
op('from-measured-abc', lambda w: bpmain.calculate_benchmark_from_measured(w.mpabc), 'slow')
op('split', lambda w: bpmain.is_fork_split(w.mp))
op('check-period', lambda w: period.check_for_period(w.mp, True))
op('goodness', lambda w: period.fit_goodness(w.signal, w.signal*0.9))
op('rectified', lambda w: period.average_rectified_sections(w.signal - 1.5))
op('good-data', lambda w: period.select_good_data(w.signal, 0.3))
op('guess', lambda w: period.make_guess(w.signal, 200.0))
op('jac', lambda w: period.jac_fitfunc([1.0, 0.5, 0.3, 0.02, 6.0], w.t))
op('period-key', lambda w: period.get_period_key({'angleOrder': 'First', 'part': 'Rwheel', 'pendulum': 'Compound'}, True))
op('rider-axes', lambda w: rider.yeadon_vec_to_bicycle_vec(w.d.reshape(3, 1), dict(w.mp, hbb=0.3, lcs=0.45, lsp=0.2, lst=0.53, lamst=1.2), w.par))
# models and sets
for k in ('W', 'FB', 'L'):
    op('ss-' + k, lambda w, k=k: w.models[k].form_state_space_matrices())
    op('ss-array-' + k, lambda w, k=k: w.models[k].form_state_space_matrices(v=w.speeds, g=3.7))
    op('eig-' + k, lambda w, k=k: w.models[k].calc_eigen())
    op('left-' + k, lambda w, k=k: w.models[k].calc_eigen(left=True, v=w.speeds))
for k in ('W', 'FB'):
    op('can-' + k, lambda w, k=k: w.models[k].form_reduced_canonical_matrices())
    op('can-array-' + k, lambda w, k=k: w.models[k].form_reduced_canonical_matrices(mB=w.speeds + 50.0))
    op('sim-' + k, lambda w, k=k: w.models[k].simulate(w.times, w.x0, v=3.0))
    op('sim-input-' + k, lambda w, k=k: w.models[k].simulate(w.times, w.x0, input_func=lambda t, x, p=None: np.array([0.0, 1.0*t])))
    op('modes-' + k, lambda w, k=k: w.models[k].simulate_modes(w.times, v=5.0))
    op('center-' + k, lambda w, k=k: w.sets[k].mass_center_of('B', 'H'))
    op('tensor-' + k, lambda w, k=k: w.sets[k].form_inertia_tensor('B'))
    op('vector-' + k, lambda w, k=k: w.sets[k].form_mass_center_vector('F'))
op('center-P', lambda w: w.sets['P'].mass_center_of('D', 'P'))
op('vector-P', lambda w: w.sets['P'].form_mass_center_vector('H'))
op('convert-P', lambda w: w.sets['P'].to_parameterization('Meijaard2007').parameters)
op('convert-W', lambda w: w.sets['W'].to_parameterization('Moore2012').parameters)
op('convert-WF', lambda w: w.sets['W'].to_parameterization('Meijaard2007WithFeedback').parameters)
op('html', lambda w: w.sets['W']._repr_html_())
op('yaml', text_of(lambda w, p: w.sets['FB'].to_yaml(p), '.yml'))
op('ini', text_of(lambda w, p: w.sets['L'].to_ini(p), '.ini'))
op('new-set', lambda w: make_set('W', {'v': 2.0}).parameters)
# bicycles
for k in ('bike', 'other'):
    op('canonical-' + k, lambda w, k=k: getattr(w, k).canonical())
    op('nominal-' + k, lambda w, k=k: getattr(w, k).canonical(nominal=True))
    op('ss-' + k, lambda w, k=k: getattr(w, k).state_space(4.0))
    op('eig-' + k, lambda w, k=k: getattr(w, k).eig(w.speeds))
    op('steer-' + k, lambda w, k=k: getattr(w, k).steer_assembly_moment_of_inertia(aboutSteerAxis=True))
    op('str-' + k, lambda w, k=k: str(getattr(w, k)))
op('load-synth', lambda w: bp.Bicycle('Synth', pathToData=w.root).parameters)
op('load-raw', lambda w: bp.Bicycle('Raw', pathToData=w.root, forceRawCalc=True).parameters, 'slow')


def with_rider(w):
    b = bp.Bicycle('Synth', pathToData=w.root)
    b.add_rider('Ann')
    return b.parameters, b.riderPar, b.hasRider


op('load-rider', with_rider)
op('table', lambda w: tables.Table('Benchmark', False, (w.bike, w.other)).create_rst_table())
op('latex', lambda w: tables.Table('Benchmark', True, (w.other,)).tableData)
op('to-latex', lambda w: [tables.to_latex(v) for v in ('IBxx', 'rF', 'lam', 'TcB1', 'alphaH2')])
op('uround', lambda w: tables.uround(ufloat(12.3456, 0.0321)))


# drawings
def draw(name, fn):
    op(name, fn, 'draw')


for k in ('W', 'FB', 'L'):
    draw('plot-parts-' + k, lambda w, k=k: w.models[k].plot_eigenvalue_parts(v=w.speeds))
    draw('plot-vectors-' + k, lambda w, k=k: w.models[k].plot_eigenvectors(v=w.speeds[:2]))
    draw('plot-modes-' + k, lambda w, k=k: w.models[k].plot_mode_simulations(w.times, v=4.0))
for k in ('W', 'FB'):
    draw('plot-sim-' + k, lambda w, k=k: w.models[k].plot_simulation(w.times, w.x0))
draw('plot-gains', lambda w: w.models['FB'].plot_gains(v=w.speeds, kTdel_phid=-w.speeds))
for k in ('W', 'P'):
    for f in ('plot_geometry', 'plot_mass_centers', 'plot_principal_radii_of_gyration', 'plot_principal_inertia_ellipsoids', 'plot_all'):
        draw('%s-%s' % (f, k), lambda w, k=k, f=f: getattr(w.sets[k], f)())
    for f in ('plot_body_mass_center', 'plot_body_principal_radii_of_gyration', 'plot_body_principal_inertia_ellipsoid'):
        draw('%s-%s' % (f, k), lambda w, k=k, f=f: getattr(w.sets[k], f)('H'))
draw('plot-person', lambda w: w.sets['P'].plot_person_diamond(show_cross=True))
draw('plot-bicycle', lambda w: w.bike.plot_bicycle_geometry(show=False))
draw('plot-bicycle-own', lambda w: w.other.plot_bicycle_geometry(show=False, pendulum=False, inertiaEllipse=False))
draw('plotly-bicycle', lambda w: w.bike._plot_bicycle_geometry_plotly(show=False).to_dict())
draw('plot-speeds', lambda w: w.bike.plot_eigenvalues_vs_speed(w.speeds))
draw('plot-speeds-generic', lambda w: w.other.plot_eigenvalues_vs_speed(w.speeds, generic=True, color='red', largest=True))
draw('plotly-speeds', lambda w: w.other._plot_eigenvalues_vs_speed_plotly(w.speeds, show=False).to_dict())
draw('plot-bode', lambda w: w.bike.plot_bode(4.0, 1, 2))
draw('plot-bodes', lambda w: w.bike.compare_bode_speeds([3.0, 5.0], 1, 2))
draw('compare-bode', lambda w: plot.compare_bode_bicycles([w.bike, w.other], 4.0, 0, 1))
draw('compare-eig', lambda w: plot.plot_eigenvalues([w.bike, w.other], w.speeds))
draw('plot-fit', lambda w: period.plot_osfit(w.t, w.signal, w.signal*0.9, np.array([1.5, 0.1, 2.0, 0.01, 6.9]), 0.98, ufloat(0.9, 0.01), m=1.0))


# changes the owner makes
def files(w):
    old = {}
    for p, pair in (('bicycles/Synth/Parameters/SynthBenchmark.txt', ('mB = 85.0', 'mB = 58.0')), ('bicycles/Raw/RawData/RawMeasured.txt', ('mB = 9.86', 'mB = 11.0')),
                    ('riders/Ann/Parameters/AnnSynthBenchmark.txt', ('mB = 72.0', 'mB = 61.0')), ('bicycles/Other/Parameters/OtherBenchmark.txt', ('mB = 60.0', 'mB = 66.0'))):
        path = os.path.join(w.root, p)
        st = os.stat(path)
        with open(path) as f:
            old[path] = (f.read(), st)
        assert pair[0] in old[path][0], path
        with open(path, 'w') as f:
            f.write(old[path][0].replace(*pair))
        os.utime(path, ns=(st.st_atime_ns, st.st_mtime_ns))
    w._undo = old


def _each(d, f):
    for k in d:
        d[k] = f(k, d[k])


def e_arrays(w):
    for x in (w.M, w.K0, w.K2, w.C1):
        x += np.eye(2)
    w.slopes += 0.05
    w.cuts[1] *= 1.1
    w.pts[0, 1] += 0.3
    w.masses *= [1.0, 2.0, 3.0]
    w.I += np.diag([0.1, 0.2, 0.05])
    w.d *= 1.5
    w.line[1, 0] -= 0.4
    w.vec[0] += 0.7
    w.axes3[0][1] = 17.0
    w.ev[1] = w.ev[1][[1, 0, 3, 2]]
    w.evec[1] = w.evec[1][:, [1, 0, 3, 2]]
    w.signal *= 1.2
    w.signal[100:] -= 0.2


def e_queries(w):
    w.speeds += 0.25
    w.times *= 1.5
    w.x0[1] = 0.3


EDITS = {
    'par': lambda w: w.par.update(mB=70.0, lam=0.25, IHxx=0.1),
    'unc': lambda w: w.upar.update(mB=ufloat(70.0, 3.0), w=ufloat(1.2, 0.0001)),
    'sd': lambda w: w.upar.update({k: ufloat(w.upar[k].nominal_value, 2.5*w.upar[k].std_dev) for k in ('mB', 'w', 'lam', 'xB', 'IBxz', 'mH', 'rF')}),
    'rider': lambda w: w.rider.update(mB=55.0, zB=-0.8),
    'measured': lambda w: (w.mp.update(mB=11.0, gamma=68.0, lF=0.3), w.mpabc.update(mB=11.0, h1=w.mpabc['h1'] + 0.01)),
    'arrays': e_arrays,
    'queries': e_queries,
    'setW': lambda w: w.sets['W'].parameters.update(v=2.0, mB=60.0, xH=0.8),
    'setFB': lambda w: w.sets['FB'].parameters.update(v=2.0, mB=60.0, kTdel_phid=-20.0),
    'setL': lambda w: w.sets['L'].parameters.update(v=2.0, mg=60.0),
    'setP': lambda w: w.sets['P'].parameters.update(mD=30.0, xP=0.1, alphaH=0.3),
    'bike': lambda w: w.bike.parameters['Benchmark'].update(mB=60.0, c=0.1, IBxz=0.5),
    'other': lambda w: w.other.parameters['Benchmark'].update(mB=ufloat(60.0, 0.3), c=ufloat(0.1, 0.03)),
    'seat': lambda w: (w.bike.add_rider('Ann'), w.other.add_rider('Ann')),
    'files': files,
}


# ----------------------------------------------------------------- answers
def axes_of(x):
    import matplotlib.axes
    import matplotlib.figure
    if isinstance(x, matplotlib.figure.Figure):
        return list(x.axes)
    if isinstance(x, matplotlib.axes.Axes):
        return list(x.figure.axes)
    return None


def drawing(axs):
    out = []
    for ax in axs:
        a = {'title': ax.get_title(), 'x': ax.get_xlabel(), 'y': ax.get_ylabel(), 'xl': ax.get_xlim(), 'yl': ax.get_ylim()}
        a['lines'] = [(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float), l.get_label() if not l.get_label().startswith('_') else '', l.get_linestyle(),
                       l.get_marker(), str(l.get_color())) for l in ax.lines]
        a['patches'] = [(p.get_path().vertices, p.get_patch_transform().get_matrix(), p.get_facecolor()) for p in ax.patches]
        a['texts'] = [(t.get_text(), t.get_position()) for t in ax.texts]
        a['coll'] = [[q.vertices for q in c.get_paths()] for c in ax.collections]
        leg = ax.get_legend()
        a['legend'] = [t.get_text() for t in leg.get_texts()] if leg else None
        out.append(a)
    return out


def canon(x):
    """comparable copy of an answer"""
    if isinstance(x, dict):
        return {str(k): canon(v) for k, v in x.items()}
    if hasattr(x, 'nominal_value'):
        return ('u', float(x.nominal_value), float(x.std_dev))
    axs = axes_of(x)
    if axs is not None:
        return ('fig', canon(drawing(axs)))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return [canon(v) for v in x.ravel()] if not x.size or axes_of(x.ravel()[0]) is None else ('fig', canon(drawing(x.ravel()[0].figure.axes)))
        return np.array(x)
    if isinstance(x, (list, tuple)):
        return [canon(v) for v in x]
    if isinstance(x, (bool, str, bytes)) or x is None:
        return x
    if isinstance(x, (int, float, complex, np.number)):
        return np.array(x)
    return type(x).__name__


def differ(a, b, path=''):
    """first difference of two answers"""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)) or a.shape != b.shape:
            return '%s: %r is not %r' % (path, a, b)
        if a.dtype.kind not in 'fciub':
            return None if np.array_equal(a, b) else '%s: %r is not %r' % (path, a, b)
        fin = np.isfinite(b)
        s = np.max(np.abs(b[fin])) if fin.any() else 0.0
        ok = np.allclose(a, b, rtol=1e-9, atol=1e-9*s + 1e-13, equal_nan=True)
        return None if ok else '%s: %r is not %r' % (path, a, b)
    if type(a) is not type(b):
        return '%s: %r is not %r' % (path, a, b)
    if isinstance(a, dict):
        if list(a) != list(b) and set(a) != set(b):
            return '%s: entries %r are not %r' % (path, sorted(set(a) ^ set(b)), '')
        for k in a:
            d = differ(a[k], b[k], '%s.%s' % (path, k))
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return '%s: %d is not %d items' % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, '%s[%d]' % (path, i))
            if d:
                return d
        return None
    if isinstance(a, float):
        return None if a == b or abs(a - b) <= 1e-9*abs(b) + 1e-13 or (a != a and b != b) else '%s: %r is not %r' % (path, a, b)
    return None if a == b else '%s: %r is not %r' % (path, a, b)


def spoil(x, depth=0):
    """what the owner of an answer may do with it"""
    if depth > 4:
        return
    axs = axes_of(x)
    if axs is not None:
        for ax in axs:
            for l in list(ax.lines):
                l.set_data([0.0], [0.0])
            for q in list(ax.patches) + list(ax.texts) + list(ax.collections):
                q.remove()
        return
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            for v in x.ravel():
                spoil(v, depth + 1)
                if axes_of(v) is not None:
                    break  # all are on one figure
        if x.flags.writeable:
            x[...] = 'spoiled' if x.dtype.kind == 'U' else -77.0
        return
    if isinstance(x, dict):
        for v in list(x.values()):
            spoil(v, depth + 1)
        x.clear()
        return
    if isinstance(x, (list, tuple)):
        for v in x:
            spoil(v, depth + 1)
        if isinstance(x, list):
            del x[:]


def settings():
    """what a process has only one of"""
    return {'err': np.geterr(), 'print': {k: v for k, v in np.get_printoptions().items() if k != 'formatter'}, 'np random': digest(np.random.get_state()), 'random': digest(random.getstate()),
            'cwd': os.getcwd(), 'environ': dict(os.environ), 'path': list(sys.path), 'umask': umask(), 'stdout': id(sys.stdout),
            'recursion': sys.getrecursionlimit()}


def digest(x):
    return hash(pickle.dumps(x))


def umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


MINE = []


def mine():
    """a figure of the user, which has nothing to do with any call, the current one"""
    p = plt()
    if MINE and p.fignum_exists(MINE[0].number):
        p.figure(MINE[0].number)
        return MINE
    fig, ax = p.subplots()
    ax.plot([0.0, 1.0], [2.0, 3.0], label='mine')
    MINE[:] = [fig, canon(fig)]
    return MINE


# --------------------------------------------------------------- processes
def forked(fn):
    """fn() in a process of its own; its result"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                res = ('ok', fn())
            except BaseException as e:  # noqa
                import traceback
                res = ('exc', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1200:]))
            with os.fdopen(w, 'wb') as f:
                pickle.dump(res, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ('exc', 'process ended without a result')


def ask(w, name):
    res = OPS[name][0](w)
    return res, canon(res)


class Scratch(object):
    def __enter__(self):
        self.root = scratch('hist')
        tree(self.root)
        return self.root

    def __exit__(self, *a):
        shutil.rmtree(self.root, ignore_errors=True)


def undo(w):
    for path, (text, st) in getattr(w, '_undo', {}).items():
        with open(path, 'w') as f:
            f.write(text)
        os.utime(path, ns=(st.st_atime_ns, st.st_mtime_ns))


def alone(name, edit, root):
    """the answer in a fresh process and a fresh world, changed before asking"""
    def go():
        np.seterr(all='warn', under='ignore')
        w = World(root)
        if edit:
            EDITS[edit](w)
        try:
            return relative(ask(w, name)[1], root)
        finally:
            undo(w)
    return forked(go)


def relative(x, root):
    """answers do not depend on where the scratch folder is"""
    if isinstance(x, str):
        return x.replace(root, '<root>')
    if isinstance(x, dict):
        return {k: relative(v, root) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(relative(v, root) for v in x)
    return x


EXP = {}


def _alone(item):
    with Scratch() as root:
        return item, alone(item[0], item[1], root)


def expected(name, edit=None):
    key = (name, edit)
    if key not in EXP:
        EXP[key] = _alone(key)[1]
    return EXP[key]


def prepare():
    import multiprocessing
    plt().figure()
    plt().close('all')
    items = [(n, e) for n in OPS for e in [None] + list(EDITS)]
    with multiprocessing.get_context('fork').Pool(int(os.environ.get('VERIF_PROCS', '8'))) as pool:
        for k, v in pool.imap_unordered(_alone, items, 8):
            EXP[k] = v


# ------------------------------------------------------------------- cases
EXCERPTS = ('good-data', 'rectified')  # parts of the recording


def judged(fails, w, name, edit, how):
    """asks, judges the answer and what the call left behind"""
    status, want = expected(name, edit)
    before, sets = w.state(), settings()
    fig, shown = mine()
    there = plt().get_fignums()
    try:
        res, got = ask(w, name)
        got = relative(got, w.root)
    except Exception as e:  # noqa
        if status == 'ok':
            fails.append(('exception:' + name, '%s: %s: %s' % (how, type(e).__name__, e)))
        return
    if status != 'ok':
        fails.append(('no-exception:' + name, '%s: alone it ends with %s' % (how, want)))
        return
    d = differ(got, want)
    if d:
        fails.append(('answer:' + name, '%s: %s' % (how, d)))
    after = w.state()
    if after != before:
        fails.append(('changed:' + name, '%s: %r changed' % (how, [k for k in before if before[k] != after.get(k)])))
    now = settings()
    if now != sets:
        fails.append(('settings:' + name, '%s: %r changed' % (how, [k for k in sets if sets[k] != now[k]])))
    p = plt()
    if not p.fignum_exists(fig.number) or differ(canon(fig), shown):
        fails.append(('figure:' + name, '%s: the figure of somebody else was changed' % how))
    if name not in EXCERPTS:
        spoil(res)
    left = w.state()
    if left != after:
        fails.append(('shared:' + name, '%s: the answer shares memory with %r' % (how, [k for k in after if after[k] != left.get(k)])))
    for n in p.get_fignums():
        if n not in there:
            p.close(n)


def history(first, edit, seconds, root):
    """first; then, each from there, change and second; returns fails and the number of calls"""
    def go():
        fails = []
        np.seterr(all='warn', under='ignore')
        gc.disable()
        w = World(root)
        judged(fails, w, first, None, first)
        if fails:
            return fails, 1
        n = 1
        # an answer which is kept
        kept, want = None, expected(first)
        if want[0] == 'ok':
            kept = ask(w, first)[0]
            d = differ(relative(canon(kept), w.root), want[1])
            if d:
                fails.append(('again:' + first, '%s again: %s' % (first, d)))
                return fails, 2
        if edit is not None:
            EDITS[edit](w)
        try:
            for s in seconds:
                def then(s=s):
                    f = []
                    before = relative(canon(kept), w.root)
                    s0, rest = s[0], s[1:]
                    judged(f, w, s0, edit, ' / '.join([first] + ([edit] if edit else []) + [s0]))
                    d = differ(relative(canon(kept), w.root), before)
                    if d:
                        f.append(('earlier:' + s0, '%s changes the earlier answer of %s: %s' % (s0, first, d)))
                    for j, x in enumerate(rest):
                        judged(f, w, x, edit, ' / '.join([first] + ([edit] if edit else []) + list(s[:j + 2])))
                    return f
                status, f = forked(then)
                n += len(s)
                if status != 'ok':
                    f = [('history', '%s %s %s: %s' % (first, edit, s, f))]
                fails += f
        finally:
            undo(w)
        return fails, n
    return forked(go)


def run(case):
    o = Outcome()
    with Scratch() as root:
        seconds = [tuple(s) for s in case['then']]
        status, res = history(case['first'], case['edit'], seconds, root)
        if status != 'ok':
            o.check(False, 'history:' + case['first'], res)
            return o
        o.trivial += expected(case['first'])[0] != 'ok'  # refused: nothing to compare
        fails, n = res
        o.transitions += n
        o.states += n
        o.evals += 6*n
        for sig, msg in fails:
            o.fail(sig, msg)
        o.validated += len(seconds)
        o.key((case['first'], case['edit'], len(seconds)))
    return o


def about(name):
    """the objects a call is about"""
    last = name.rsplit('-', 1)[-1]
    if last in ('W', 'WF', 'FB', 'L', 'P', 'bike', 'other'):
        return {last[0] if last == 'WF' else last}
    return {'bike', 'other'} if OPS[name][1] == 'draw' else set()


def cases(tier):
    names = list(OPS)
    cheap = [n for n in names if OPS[n][1] == 'calc']
    for n in names:
        yield {'first': n, 'edit': None, 'then': [[n]]}
    for n in names:
        for e in EDITS:
            yield {'first': n, 'edit': e, 'then': [[n]]}
    # calculations and drawings of different objects after each other: thorough
    for n in names:
        yield {'first': n, 'edit': None, 'then': [[x] for x in names if tier != 'quick' or 'calc' in OPS[x][1] or OPS[n][1] == 'draw' or about(n) & about(x)]}
    if tier == 'quick':
        return
    for n in names:
        for e in EDITS:
            yield {'first': n, 'edit': e, 'then': [[x] for x in names]}
    for n in cheap:
        for blk in chunks(itertools.product(cheap, cheap), 1000):
            yield {'first': n, 'edit': None, 'then': [list(x) for x in blk]}
