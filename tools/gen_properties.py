#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  One entry per call; kept as code so that the
text is reviewable."""
import json, os

P = []
B = 'bicycleparameters/'


def prop(id, title, statement, over, text, why, files, mech, observe=None,
         state=None):
    d = {'id': id, 'title': title, 'statement': statement,
         'quantifier': {'over': over, 'text': text},
         'why_tests_cant': why,
         'anchors': {'files': [B + f for f in files],
                     'mechanism': [{'name': n, 'where': w} for n, w in mech],
                     'observe_at': observe or [], 'hook_needed': None}}
    if state:
        d['anchors']['state'] = [{'name': n, 'meaning': m, 'where': w}
                                 for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)


prop('C01', 'Array parameter overrides equal element-by-element evaluation',
     'Evaluating any model with some parameters overridden by equal-length arrays gives, at every index, exactly what a separate evaluation with that index\'s scalar values gives, for matrices, eigenvalues and eigenvectors alike, whichever and however many parameters are arrays or scalars and whatever sequence type and number type holds them. '
     'Overrides last for one call only: they never change the model\'s stored parameters or a later call, and never change the caller\'s arrays. '
     'An unknown parameter name is ignored with a warning and arrays of different lengths are rejected with an error.',
     ['inputs', 'histories'],
     'all subsets up to a bound of overridable parameters, each scalar or array, over lengths 1..3, container/number types, model classes and call histories',
     'tests try two or three hand-picked override combinations on one bicycle; the guarantee is about every combination of parameter, shape, model and preceding calls',
     ['models.py'],
     [('override parsing', 'models.py:_Model._parse_parameter_overrides'),
      ('per-index assembly', 'models.py:form_state_space_matrices of each model')],
     ['form_reduced_canonical_matrices', 'form_state_space_matrices', 'calc_eigen'])

prop('C02', 'Whipple model matrices equal the published linear bicycle equations',
     'For every valid set of benchmark parameters, speed and gravity, the mass, damping and the two stiffness matrices, and the state and input matrices built from them, equal those of the linearised Carvallo-Whipple bicycle equations of Meijaard et al. (2007), whether they are asked of a model object, of a loaded bicycle or of the plain functions. '
     'Computing them leaves the supplied parameters unchanged, and a front or rear wheel\'s vertical-axis inertia is always taken equal to its fore-aft one.',
     ['inputs', 'configurations'],
     'every point of a bounded-deviation lattice over all 25 parameters, speed and gravity (signs, zeros, equal and unequal wheels), through every entry point',
     'tests compare a few matrices of one or two bicycles to stored numbers; a wrong term that vanishes for those bicycles is invisible',
     ['bicycle.py', 'models.py', 'main.py'],
     [('canonical matrices', 'bicycle.py:benchmark_par_to_canonical'),
      ('state space', 'bicycle.py:ab_matrix'), ('model', 'models.py:Meijaard2007Model'),
      ('bicycle', 'main.py:Bicycle.canonical/state_space')],
     ['returned M, C1, K0, K2, A, B', 'the parameter dictionary passed in'])

prop('C03', 'Feedback model is exactly the open-loop model closed by its gains',
     'With full state feedback the state matrix equals the open-loop state matrix minus the input matrix times the 2x4 gain matrix, and the input matrix is the open-loop one, for every combination of scalar and array gains and other parameters, including integer-valued ones. '
     'Each named gain acts from its named state onto its named torque only, and all-zero gains reproduce the open-loop model.',
     ['inputs'],
     'all single gains, all pairs and all gains at once, scalar or array, int or float, crossed with scalar/array speed, gravity, mass and geometry overrides',
     'the test only sets one gain on one bicycle; the placement of the eight gains under array/scalar mixing has 3^8 cases',
     ['models.py', 'parameter_sets.py'],
     [('closing the loop', 'models.py:Meijaard2007WithFeedbackModel.form_state_space_matrices')],
     ['form_state_space_matrices', 'calc_eigen'])

prop('C04', 'Leaning-rider model reduces to the rigid-rider bicycle and its kinematics',
     'For every valid parameter set and speed, locking the rider\'s lean in the twelve-state model yields exactly the roll and steer dynamics of the rigid-rider Carvallo-Whipple bicycle whose rear body combines frame and rider. '
     'Lean spring and damper act only between lean and lean rate, roll/steer/lean torques enter through the inverse of one symmetric positive definite mass matrix, coordinates are integrals of their rates, and the yaw, wheel-rotation and contact-point rows follow rolling without slip at the requested forward speed.',
     ['inputs'],
     'bounded-deviation lattice over all 37 parameters and speed including zero lean stiffness, sign changes and non-default wheel sizes',
     'the only test is a stored matrix of one rider at one speed',
     ['models.py', '_mooreriderlean2012.py'],
     [('linear model', 'models.py:MooreRiderLean2012Model.form_state_space_matrices')],
     ['form_state_space_matrices'])

prop('C05', 'Eigen-solutions solve the eigenproblem of the matching state matrix',
     'Every eigenvalue/eigenvector pair a model or a loaded bicycle returns satisfies A v = lambda v (the transposed problem when left eigenvectors are requested) for the state matrix of the same parameters and the same index, with all eigenvalues of that matrix present and eigenvectors of unit length held in columns. '
     'A bicycle\'s eigenvalues for a list of speeds come back in the order of the speeds and agree with its own state matrix at each speed; modal controllability angles equal the angle between each left eigenvector and each input column.',
     ['inputs', 'configurations'],
     'all models, left/right, scalar/array parameters, speed lists of every order including repeats, zero and negative speeds, int/float/list/array containers, with and without rider',
     'tests compare eigenvalues at two speeds for one bicycle and never check eigenvectors against the matrix',
     ['models.py', 'main.py'],
     [('model eigen', 'models.py:_Model.calc_eigen'), ('bicycle eigen', 'main.py:Bicycle.eig'),
      ('modal controllability', 'models.py:Meijaard2007Model._calc_modal_controllability')],
     ['calc_eigen', 'Bicycle.eig'])

prop('C06', 'Mode sorting only reorders eigenpairs and follows each mode',
     'Sorting a sequence of eigenvalue sets returns, at every step, a permutation of exactly that step\'s eigenvalues, each still accompanied by its own eigenvector, with the first step unchanged and the inputs not modified. '
     'Whenever every eigenvalue moves less than half the distance separating it from the others, each sorted column follows one and the same mode; splitting into weave, capsize and caster uses the same order.',
     ['inputs', 'histories'],
     'all sequences of eigenvalue multisets over a small complex lattice (including coincident, conjugate and crossing values), all orders of every step, 1..4 steps',
     'one stored two-step example; duplicates or losses need coinciding nearest neighbours across steps',
     ['bicycle.py'],
     [('sorting', 'bicycle.py:sort_eigenmodes'), ('naming', 'bicycle.py:sort_modes')],
     ['returned arrays'])

prop('C07', 'Simulations solve the linear model from the given start and inputs',
     'A simulated trajectory starts at the given initial state, is reported at exactly the requested times, and satisfies the model\'s linear differential equation under the requested inputs, which are themselves reported as evaluated at the reported times and states; without an input function inputs are zero and each mode simulation starts at and evolves from its eigenvector. '
     'Wheel rate in the leaning-rider model always starts consistent with the speed. '
     'Simulating or plotting a simulation never changes the caller\'s initial conditions, times or overrides, and array-valued parameters are refused.',
     ['inputs', 'histories'],
     'all models crossed with every basis and mixed initial state, input functions per channel, uneven and offset time grids, container types, overrides and repeated use of the same arguments',
     'tests only check that simulation runs and has the right shape',
     ['models.py'],
     [('integration', 'models.py:_Model.simulate/simulate_modes'),
      ('lean model start', 'models.py:MooreRiderLean2012Model.simulate')],
     ['simulate', 'simulate_modes', 'plot_simulation', 'plot_mode_simulations'])

prop('C08', 'Converting a parameter set preserves the physical bicycle',
     'Whenever a parameter set can be converted to another parameterization, the result describes the same bicycle: same geometry, gravity and speed, same masses and mass centres of every (combined) body, same inertia about them expressed in the same axes, hence the same equations of motion, and added feedback gains are zero. '
     'Conversion never alters the source set, converting to the set\'s own parameterization changes nothing, and an unsupported target is refused with an error.',
     ['inputs', 'configurations'],
     'every source and target parameterization, chains of conversions, and a bounded-deviation lattice of source values including rotated principal axes, massless parts and asymmetric masses, minimal and full dictionaries',
     'tests convert one or two riders and look at one mass centre; some routes are never exercised',
     ['parameter_sets.py', 'conversions.py', 'models.py'],
     [('routes', 'parameter_sets.py:to_parameterization'),
      ('principal to benchmark', 'conversions.py:_convert_principal_to_benchmark')],
     ['to_parameterization', 'model matrices of both sets'])

prop('C09', 'Body masses, mass centres and inertia tensors are consistent for any subset',
     'For any selection of bodies in any order, the reported combined mass centre is the mass-weighted average of the selected bodies\' mass centres; wheel centres lie at the axles, all bodies lie in the symmetry plane, and every inertia tensor is symmetric with the parameters\' moments and product in the documented places and wheels symmetric about their axle. '
     'Asking these questions never changes the parameter set or later answers.',
     ['inputs', 'configurations'],
     'every non-empty ordered selection of bodies for each parameter set type over a lattice of parameter values',
     'tests check two body selections of one rider',
     ['parameter_sets.py', 'com.py'],
     [('mass centres', 'parameter_sets.py:mass_center_of/form_mass_center_vector'),
      ('tensors', 'parameter_sets.py:form_inertia_tensor'), ('total mass centre', 'com.py:total_com')],
     ['returned vectors and tensors'])

prop('C10', 'Parameter sets accept only complete float dictionaries and survive saving',
     'A parameter set can be created exactly when every documented parameter of its type is present and is a floating point number; otherwise creation fails with an error naming the offending parameter. '
     'A set written to YAML and read back has the same parameterization, the same values to the last bit and the same rider flag, and the INI file lists every parameter with its value to at least 15 decimals, for original and for converted sets and for files overwritten any number of times. The summary table of a set lists every parameter once, under its own symbol, with its value.',
     ['inputs', 'histories'],
     'every set type x every single and pairwise missing/ill-typed parameter; every set and conversion result x extreme float values (tiny, huge, negative, zero, shortest-repr-hard) x sequences of writes to the same path',
     'tests read three YAML files and never write one',
     ['parameter_sets.py'],
     [('validation', 'parameter_sets.py:ParameterSet._check_parameters'),
      ('files', 'parameter_sets.py:to_yaml/to_ini/_from_yaml')],
     ['constructors', 'files written', 'summary table'])

prop('C11', 'Parameter text files mean what their format says',
     'Reading a parameter text file yields exactly one entry per assignment line with the value, and the uncertainty when one is given, that the line states; comma separated values are averaged with uncertainties combined; the last assignment of a name wins. '
     'Comments, blank lines, surrounding white space, spacing around signs, number formats and line ending style never change the meaning, and removing uncertainties keeps exactly the nominal values.',
     ['inputs'],
     'every file of up to a bounded number of lines from a grammar of line forms (comment styles, spacing, exponents, signs, with/without uncertainty, 1..3 averaged values, line endings, missing final newline)',
     'no test reads a parameter text file except indirectly through stored data in one style',
     ['io.py'],
     [('parser', 'io.py:load_parameter_text_file'), ('stripping', 'io.py:remove_uncertainties')],
     ['returned dictionary'])

prop('C12', 'Saving parameter files asks before overwriting and round-trips',
     'Writing parameters to a new path creates the file (and its folder); writing to an existing path asks first, keeps asking until answered y or n, overwrites completely on y, leaves the old file byte-identical on n, and reports truthfully whether it saved. '
     'What was written reads back as the same names and values (floats exactly, uncertain values to the digits of their printed form), and a bicycle saved with or without rider writes each parameter set under its own documented file name and nothing else, so that reloading yields the same bicycle.',
     ['histories', 'inputs'],
     'all sequences up to a bound of write/answer/read operations over two paths and several dictionaries, all answer strings up to length 3 over a small alphabet; all save/reload histories of bicycles with any number of parameter sets, with and without rider',
     'tests never write parameters or answer the prompt',
     ['io.py', 'main.py'],
     [('writer', 'io.py:write_parameter_text_file'), ('bicycle save', 'main.py:Bicycle.save_parameters')],
     ['file bytes', 'prompts', 'return value'])

prop('C13', 'Updating measured files never loses measurements, even when interrupted',
     'Recording oscillation periods in a measurement file keeps every non-period line of it intact and in order, and afterwards the file read back holds exactly the bicycle\'s current set of periods: recalculated ones replaced, others kept. '
     'If the process dies or the disk fails at any point while a measurement or parameter file is being written, the file on disk is either the complete old or the complete new version.',
     ['crash_points', 'fault_sequences', 'histories', 'inputs'],
     'every file system call of each write as a crash point (before, after, and part-way through writes) and as an injected I/O error; every base file form (no final newline, comments, interleaved periods) x every sequence of updates',
     'no test writes these files, let alone fails in the middle of a write',
     ['io.py', 'main.py'],
     [('period writer', 'io.py:write_periods_to_file'),
      ('caller', 'main.py:Bicycle.calculate_from_measured'),
      ('parameter writer', 'io.py:write_parameter_text_file')],
     ['file bytes after each operation or crash'])

prop('C14', 'Bicycle loading chooses its data source by the documented rules',
     'Loading a bicycle uses its saved benchmark parameters when they exist and recalculation is not forced, computes them from the raw measurements when there are none or when recalculation is forced and raw data exist, and recomputes periods from oscillation files only when forced or when too few periods are recorded; a missing bicycle is an error and a bicycle without usable data is reported without crashing. '
     'What is loaded equals what those files say, the measured data are available whenever they exist, loading without period calculation changes no file, and the same load repeated gives the same parameters.',
     ['configurations', 'histories'],
     'every combination of present/absent parameter files, raw measurements, period entries and oscillation files with both force flags and both fork types, and all sequences of loads up to a bound',
     'tests load one bicycle one way',
     ['main.py', 'period.py'],
     [('loader', 'main.py:Bicycle.__init__'), ('need for periods', 'period.py:check_for_period'),
      ('calculation', 'main.py:Bicycle.calculate_from_measured')],
     ['parameters', 'files touched'],
     [('parameters', 'loaded parameter sets', 'main.py:Bicycle.parameters')])

prop('C15', 'Adding a rider is physically additive and queries never change a bicycle',
     'After adding a rider, the bicycle\'s rear body has exactly the summed mass, the combined mass centre and the combined inertia (parallel axes) of the bare frame and that rider, every other parameter is unchanged, the rider\'s own parameters are kept, and the description names the rider; a second rider is refused with nothing changed. '
     'No query (matrices, eigenvalues, plots, inertia, text, tables) in any order and number changes any parameter or any later answer.',
     ['histories'],
     'all operation sequences up to a bound over {add rider A, add rider B, matrices, eigenvalues, steer inertia, plots, text} for loaded, raw-calculated and rider-file-based bicycles',
     'tests add a rider once and look at one value; state corruption needs sequences',
     ['main.py', 'inertia.py', 'rider.py'],
     [('rider', 'main.py:Bicycle.add_rider'), ('combination', 'inertia.py:combine_bike_rider')],
     ['parameters', 'hasRider', 'str()'],
     [('hasRider', 'rider present', 'main.py'), ('parameters', 'parameter sets', 'main.py')])

prop('C16', 'Measurement reduction recovers the bicycle that was measured',
     'If measurements of lengths, angles, masses and ideal pendulum periods are generated from a bicycle with known geometry, masses, mass centres and inertias, the computed benchmark parameters are exactly that bicycle, for whole and split fork/handlebar, either way of measuring the frame geometry, any three to six non-degenerate hanging orientations, and with or without a flywheel. '
     'Computing them leaves the measurements unchanged and depends only on the measured values, not on the order or number type in which they are listed.',
     ['inputs', 'configurations'],
     'synthetic bicycles over a bounded-deviation lattice x {whole, split} x {wheelbase/angle/offset, height/diameter} geometry x orientation counts and angles x flywheel x float/uncertain numbers',
     'tests use one measured bicycle whose true parameters are unknown',
     ['main.py', 'com.py', 'geometry.py', 'inertia.py', 'bicycle.py'],
     [('reduction', 'main.py:calculate_benchmark_from_measured'), ('lines', 'com.py:com_line/center_of_mass'),
      ('geometry', 'geometry.py:calculate_benchmark_geometry'), ('inertias', 'inertia.py:inertia_components')],
     ['returned parameters and extras'])

prop('C17', 'Inertia algebra obeys the laws of rigid bodies',
     'Shifting inertia to a parallel axis adds exactly the point-mass inertia, rotating about the lateral axis preserves eigenvalues and composes and inverts, principal axes reconstruct the tensor with ascending moments and orthonormal axes, combining bodies is independent of order and grouping, and pendulum and torsion formulas are mutual inverses of the corresponding period formulas. '
     'Apart from the principal axes (of plain tensors) all of these accept plain and uncertain numbers with the same nominal result; none modifies its arguments.',
     ['inputs'],
     'exhaustive small lattices of tensors, offsets, angles, masses and periods, for float and uncertain number types, and all orders and groupings of up to four bodies',
     'there are no tests of these functions beyond one example each',
     ['inertia.py', 'com.py', 'conversions.py'],
     [('algebra', 'inertia.py:parallel_axis/rotate_inertia_tensor/principal_axes/inertia_components'),
      ('pendulums', 'inertia.py:compound_pendulum_inertia/tor_inertia/torsional_pendulum_stiffness/tube_inertia')],
     ['returned values'])

prop('C18', 'Steer assembly inertia equals that of the selected parts for every option',
     'For every choice of handlebar, fork and front wheel the returned tensor is that of exactly the selected parts about their common mass centre expressed in steer-axis aligned axes, and about the steer axis it additionally includes the total mass times the squared distance to the axis. '
     'Selecting only one of handlebar and fork fails with a clear error when they were not measured separately, and the nominal option changes only the number type.',
     ['configurations', 'inputs'],
     'all 32 option combinations x split and whole fork bicycles (all shipped ones and lattice variations)',
     'not tested at all',
     ['main.py', 'inertia.py', 'geometry.py'],
     [('assembly', 'main.py:Bicycle.steer_assembly_moment_of_inertia')],
     ['returned tensor'])

prop('C19', 'Bicycle geometry relations agree with each other and with plane geometry',
     'Steer axis tilt, wheelbase, trail, offsets, handlebar reference location, drawn frame points, point-line distances and projections, line intersections, link angles and vector operations returned by the geometry functions are those of the actual plane figure, so each is consistent with the others (for example recomputing the offsets from wheelbase, tilt and trail returns the measured ones). '
     'The relations used to reduce measurements hold for plain and uncertain numbers alike, with the same nominal values, and no function modifies its arguments.',
     ['inputs'],
     'exhaustive lattices of the geometric inputs including equal and unequal wheels, zero and negative offsets, for float and uncertain numbers',
     'tests cover a couple of functions at one or two points',
     ['geometry.py', 'bicycle.py', 'com.py'],
     [('geometry', 'geometry.py'), ('tilt', 'bicycle.py:lambda_from_abc'), ('trail', 'bicycle.py:trail')],
     ['returned values'])

prop('C20', 'Oscillation records yield their true period under the right name',
     'From any clean recording of a decaying oscillation, given with a sample rate or time stamps, the period returned is the oscillation\'s true period, with the standard error of the fit as its uncertainty, and the plot of the fit shows that recording and the fitted oscillation, on the figure it was asked for. '
     'Each recording is filed under the name of its pendulum type, part and orientation for whole and split forks, its file name decodes to that same setup, several trials of one setup are averaged, trials of different setups never mix, and the set of periods is judged sufficient exactly at the documented counts.',
     ['inputs', 'configurations'],
     'lattice of frequency, damping, amplitude, phase, offset, rate and time-stamp form; all part x pendulum x orientation x fork combinations; all small multisets of recordings in all file orders',
     'tests load one stored recording and never fit it',
     ['period.py', 'io.py'],
     [('fit', 'period.py:get_period'), ('names', 'period.py:get_period_key'), ('file names', 'io.py:filename_to_dict'),
      ('averaging', 'period.py:calc_periods_for_files'), ('sufficiency', 'period.py:check_for_period')],
     ['returned periods'])

prop('C21', 'Parameter tables show every bicycle\'s values, rounded to their uncertainty',
     'A table of measured or benchmark parameters has one row for every variable any of its bicycles has and, for every bicycle, that bicycle\'s value and uncertainty rounded to the uncertainty\'s leading digit, its plain value with NA when it has no uncertainty, and NA when it lacks the variable. '
     'The text form is a valid aligned grid containing exactly those cells under the right bicycle, is the same every time it is produced and identical to what is written to file, and changes nothing.',
     ['inputs', 'histories'],
     'all tables of up to three bicycles with every presence/absence pattern of up to three variables, value magnitudes and uncertainty magnitudes over a lattice, plain/LaTeX names, repeated generation',
     'not tested at all',
     ['tables.py'],
     [('table', 'tables.py:Table'), ('rounding', 'tables.py:uround'), ('names', 'tables.py:to_latex')],
     ['tableData', 'returned text', 'file'])

prop('C22', 'Dynamics plots draw the data they claim to show',
     'Every curve in the eigenvalue, eigenvector, simulation, mode-simulation, gain and frequency response plots has as its data the corresponding computed quantity at the corresponding parameter, time or frequency values, in the stated unit, under the right label, for every option combination. '
     'Stable regions are shaded exactly where no eigenvalue has a positive real part, and values hidden as zero are exactly those below the tolerance.',
     ['inputs', 'configurations'],
     'all plot functions x all their option combinations x models/bicycles x parameter ranges (stable, unstable, mixed)',
     'tests only check that plotting does not raise',
     ['models.py', 'main.py', 'plot.py'],
     [('model plots', 'models.py:plot_*'), ('bicycle plots', 'main.py:plot_eigenvalues_vs_speed/plot_bode/compare_bode_speeds'),
      ('comparison plots', 'plot.py')],
     ['data of the drawn artists'])

prop('C23', 'Bicycle drawings place every part where the parameters put it',
     'In every drawing of a bicycle, wheels, ground, frame lines, steer axis, mass centre symbols, gyration lines and inertia ellipses are positioned, sized and oriented according to the parameters of the drawn bicycle, for every parameter set type, body selection and option. '
     'Drawing onto given axes adds to those axes only and never changes the parameters.',
     ['inputs', 'configurations'],
     'all drawing functions x body selections x options x a lattice of bicycles, static and interactive versions',
     'tests only check that drawing does not raise',
     ['parameter_sets.py', 'main.py', 'plot.py', 'geometry.py'],
     [('set drawings', 'parameter_sets.py:plot_*'), ('bicycle drawing', 'main.py:plot_bicycle_geometry'),
      ('interactive drawing', 'main.py:_plot_bicycle_geometry_plotly')],
     ['data of the drawn artists'])

prop('C24', 'A configured rider sits on the bicycle it is configured for',
     'When a rider is computed from body measurements for a bicycle, the resulting figure\'s feet are at the bottom bracket and hands at the grips as located by that bicycle\'s measurements, left and right limbs mirror each other, and the rider\'s mass, mass centre and inertia are those of that figure expressed in the bicycle\'s axes. '
     'Points map from rider to bicycle axes rigidly, and computing a rider changes neither the measurements nor the bare bicycle.',
     ['inputs', 'configurations'],
     'every shipped rider that can be seated x every bicycle with seat measurements, plus lattice variations of the seat/handlebar measurements and forward lean',
     'no test configures a rider',
     ['rider.py', 'main.py'],
     [('seating', 'rider.py:rider_on_bike'), ('mapping', 'rider.py:yeadon_vec_to_bicycle_vec'),
      ('parameters', 'rider.py:configure_rider')],
     ['human figure', 'rider parameters'])

prop('C25', 'The web app shows and analyses exactly the parameters in its tables',
     'Selecting or resetting a bicycle fills the tables with that bicycle\'s stored parameters (angles in degrees), and the geometry and eigenvalue figures shown are, each in its own place, those of the bicycle described by the tables over the selected speed range with the selected overlays. '
     'Any sequence of selecting, editing, toggling and resetting leaves figures and tables in agreement; an edit changes only the edited quantity and no user action alters stored data.',
     ['histories', 'inputs'],
     'all sequences up to a bound of select/edit-cell/toggle/slider/reset events over every table cell and every shipped bicycle',
     'the app has no tests',
     ['app.py', 'main.py'],
     [('tables', 'app.py:populate_wheel_data'), ('figures', 'app.py:plot_update')],
     ['callback outputs'])

prop('C26', 'Uncertainties ride along without changing results',
     'Every calculation that accepts uncertain numbers gives the same nominal result as the same calculation on plain numbers, and its reported standard deviations are those of first-order propagation of the independent input uncertainties, from raw measurements through parameters, rider addition and steer inertia to the equations of motion. '
     'Zero input uncertainty gives zero output uncertainty, and asking for nominal results only strips the uncertainties.',
     ['inputs', 'configurations'],
     'every uncertain input singly and in pairs, over bicycles and both fork types, against numerically differentiated plain-number results; all shipped bicycles',
     'tests look at nominal values only',
     ['main.py', 'bicycle.py', 'inertia.py', 'com.py', 'geometry.py', 'io.py'],
     [('propagation', 'main.py:calculate_benchmark_from_measured'), ('matrices', 'bicycle.py:benchmark_par_to_canonical/ab_matrix'),
      ('inertia', 'inertia.py')],
     ['nominal values and standard deviations'])

prop('C27', 'An answer depends on the question alone',
     'Every calculation, query, conversion, loading and drawing function gives the answer its arguments, objects and files determine at that moment, whatever was asked before, of whichever objects, and whatever was done to earlier answers or changed since. '
     'Asking changes neither its arguments, nor any bicycle, parameter set, model or figure it was not given to draw on, nor process-wide numeric, random or working-directory settings, and answers (other than excerpts of a recording) share no memory with what they were computed from.',
     ['histories', 'inputs'],
     'all histories of calls of the public interface, changes of the objects asked about, and overwritten answers, up to a length',
     'tests ask every question once, of fresh objects, and never look at what a call leaves behind',
     ['bicycle.py', 'com.py', 'geometry.py', 'inertia.py', 'io.py', 'main.py', 'models.py', 'parameter_sets.py', 'period.py', 'plot.py', 'rider.py', 'tables.py'],
     [('calculations', 'bicycle.py, com.py, geometry.py, inertia.py'), ('models', 'models.py:_parse_parameter_overrides/form_*/calc_eigen'),
      ('bicycles', 'main.py:canonical/state_space/eig/plot_*'), ('drawings', 'parameter_sets.py:plot_*, plot.py')],
     ['answers and objects after every call'])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, '..', 'properties.jsonl'), 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
print(len(P))
