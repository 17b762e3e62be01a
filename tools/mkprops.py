"""Regenerates /verif/properties.jsonl (kept as code only for editability)."""
import json, os
P = []
D = 'bicycleparameters/'
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over if isinstance(over, list) else [over], text=qtext),
        why_tests_cant=why,
        anchors=dict(files=[D + f for f in files],
                     mechanism=[dict(name=n, where=D + w) for n, w in mech],
                     **({'observe_at': observe} if observe else {}))))

p('C01', 'Benchmark parameters map to the published canonical matrices',
  'For every benchmark parameter set, the mass, damping, gravity-stiffness and velocity-stiffness matrices the package computes are exactly the coefficients of the published linearised Whipple-Carvallo (Meijaard et al. 2007) equations, ordered roll then steer. The mass and gravity-stiffness matrices are symmetric, and the standalone conversion and the model interface give the same matrices.',
  'inputs', 'all values of the 25 benchmark parameters, plain floats or values with uncertainties',
  'Tests compare one or two numeric bicycles at a few decimals; a term that vanishes or nearly vanishes for the sampled bicycle (e.g. products of inertia, front-frame offsets) is not observed.',
  ['bicycle.py', 'models.py'],
  [('canonical coefficient formulas', 'bicycle.py benchmark_par_to_canonical'), ('model interface', 'models.py Meijaard2007Model.form_reduced_canonical_matrices')])
p('C02', 'State-space form is equivalent to the second-order equations of motion',
  'For every mass, damping and stiffness matrix, speed and gravity, the first-order state and input matrices returned for the bicycle model reproduce M q\'\' + v C1 q\' + (g K0 + v^2 K2) q = f, with states ordered roll angle, steer angle, roll rate, steer rate and inputs ordered roll torque, steer torque. This holds through the standalone function, the bicycle object (speeds and gravity placed correctly), and the model object.',
  'inputs', 'all matrices, speeds and gravity values',
  'One numeric doctest and one bicycle are sampled.', ['bicycle.py', 'models.py', 'main.py'],
  [('first-order form', 'bicycle.py ab_matrix'), ('model', 'models.py Meijaard2007Model.form_state_space_matrices'), ('object', 'main.py Bicycle.state_space')])
p('C03', 'Feedback gains enter the closed loop in the documented slots and sign',
  'With feedback gains, the closed-loop state matrix equals the open-loop state matrix minus the input matrix times the gain matrix, where each of the eight gains multiplies exactly the state and drives exactly the torque that its documented name says. The input matrix is unchanged, and all-zero gains give exactly the open-loop matrices.',
  'inputs', 'all gain values and all parameter values, scalar gains or arrays of gains',
  'Tests only check shapes and that some gains change the matrix.', ['models.py'],
  [('closed loop', 'models.py Meijaard2007WithFeedbackModel.form_state_space_matrices')])
p('C04', 'Array-valued parameter overrides equal the stack of scalar evaluations',
  'For every model, giving one or more parameters as equal-length arrays yields matrices whose k-th slice is exactly the scalar result for the k-th entries of those arrays, with the leading axis equal to the common length, for every length including lengths equal to the state or input dimension.',
  'inputs', 'any parameter or gain, any combination of parameters given as arrays, any length',
  'Tests sample one or two parameters at one length and mostly compare shapes.', ['models.py'],
  [('array branches', 'models.py form_reduced_canonical_matrices / form_state_space_matrices'), ('eigen', 'models.py _Model.calc_eigen')])
p('C05', 'Queries never modify the parameter set or the caller\'s inputs',
  'Computing matrices, eigenvalues, conversions, inertias, tables of parts, simulations or plots leaves the stored parameter set and every dictionary, list or array passed in by the caller unchanged, so repeating a query gives the same answer.',
  'histories', 'every sequence of public queries on shared inputs',
  'Tests call each query once and do not compare inputs before and after.', ['bicycle.py', 'models.py', 'inertia.py', 'com.py', 'geometry.py', 'conversions.py', 'parameter_sets.py', 'main.py', 'rider.py', 'tables.py'],
  [('override handling copies', 'models.py _Model._parse_parameter_overrides'), ('copy before extend', 'main.py calculate_benchmark_from_measured')])
p('C06', 'Parameter overrides are validated',
  'An override whose name is not a parameter is ignored with a warning and never reaches the equations; array overrides of unequal length raise a ValueError; scalar overrides replace the stored value. Simulation with any array-valued override is refused with a ValueError, and a gain plot without any swept parameter other than a gain is refused with a ValueError.',
  'inputs', 'every combination of override names and scalar or array values',
  'Tests sample a few combinations on one model.', ['models.py'],
  [('override parser', 'models.py _Model._parse_parameter_overrides'), ('simulation guard', 'models.py _Model.simulate')])
p('C07', 'Every parameter set is checked for completeness',
  'Constructing any parameter set rejects a dictionary lacking a required parameter, or giving something other than a number for one, with an error, accepts extra entries, and keeps exactly the values given. Every parameter that a model, conversion or query of that set reads is either among its required parameters or derived from required parameters.',
  'inputs', 'every parameter dictionary and every public query of every parameterization',
  'Tests construct sets from complete dictionaries and exercise few queries.', ['parameter_sets.py', 'models.py'],
  [('completeness check', 'parameter_sets.py ParameterSet._check_parameters'), ('derived values', 'parameter_sets.py _calc_derived_params')])
p('C08', 'Parameterization conversions reach every advertised target or refuse',
  'Asking a parameter set for its own parameterization returns that same set; asking for a target it advertises always succeeds and yields a complete set of the requested kind; any other target raises a ValueError. Converting a plain bicycle to the feedback parameterization keeps every shared value and sets all gains to zero.',
  'inputs', 'every parameter set kind, every target name',
  'Tests exercise a few of the pairs.', ['parameter_sets.py', 'conversions.py'],
  [('conversion dispatch', 'parameter_sets.py to_parameterization')])
p('C09', 'Person-plus-bicycle conversion conserves mass, mass centre and inertia',
  'Converting the parameterization that separates the person from the rear frame into the benchmark parameterization gives a combined rear body whose mass, mass centre and inertia tensor about its own mass centre are those of the rigid union of the two bodies, built from their principal inertias and principal-axis angle. All other bodies get their inertia from mass times squared radius of gyration, and geometry values pass through unchanged.',
  'inputs', 'all parameter values',
  'One conversion is compared for one data set.', ['conversions.py', 'parameter_sets.py'],
  [('principal to benchmark', 'conversions.py _convert_principal_to_benchmark')])
p('C10', 'Body mass centres and inertia tensors agree with the parameters',
  'For each body the mass-centre vector and the inertia tensor returned by a parameter set are the ones its parameters define (wheels at hub height, symmetric tensors, disc-like wheels), and the mass centre of any group of bodies is the mass-weighted mean of their individual mass centres. An unknown body name is refused.',
  'inputs', 'all parameter values and all subsets of bodies',
  'Doctests evaluate one bicycle.', ['parameter_sets.py'],
  [('mass centre vector', 'parameter_sets.py form_mass_center_vector'), ('tensor', 'parameter_sets.py form_inertia_tensor'), ('group', 'parameter_sets.py mass_center_of')])
p('C11', 'Inertia transformations obey the laws of mechanics',
  'Parallel-axis shifts add m(d.d I - d d^T), in-plane rotations are congruences by the documented rotation, the tube formula and torsional stiffness are the textbook expressions, and a part\'s tensor is symmetric with its xz product filled in both slots. Principal moments are returned in ascending order each with its own axis.',
  'inputs', 'all masses, offsets, angles, tensors',
  'Few numeric cases are tested and several of these functions have no reliable test.', ['inertia.py', 'conversions.py'],
  [('parallel axis', 'inertia.py parallel_axis'), ('rotation', 'inertia.py rotate_inertia_tensor'), ('principal axes', 'inertia.py principal_axes'), ('tube', 'inertia.py tube_inertia')])
p('C12', 'Adding a rigid rider conserves mass, first moment and inertia',
  'Combining a bicycle with a rider gives a rear body with the summed mass, the mass-weighted mass centre and the inertia of the rigid union about that combined mass centre, with the product of inertia sign consistent with the coordinate system. Every other bicycle parameter is passed through unchanged.',
  'inputs', 'all bicycle and rider parameter values',
  'No reliable test covers the combination.', ['inertia.py', 'main.py'],
  [('combination', 'inertia.py combine_bike_rider')])
p('C13', 'Rider vectors are placed in the bicycle frame by a proper rigid transform',
  'Converting a point from the human-model frame to the bicycle frame is a rotation plus the seat-position translation determined by the measured seat geometry (forward, right, down axes), and the configured rider is bilaterally symmetric, with hands and feet targets mirrored left and right. The equations solved for the posture are the closure of the arm on the grip (located by its measured distances from both hubs) and of the leg on the bottom bracket, and the inertia of the rider is expressed by the same rotation as its mass centre.',
  'inputs', 'all points and all measured geometries',
  'Rider tests need external data that is absent and are not reliable here.', ['rider.py'],
  [('frame transform', 'rider.py yeadon_vec_to_bicycle_vec'), ('configuration', 'rider.py rider_on_bike')])
p('C14', 'Pendulum measurements are turned into inertia by the published relations',
  'The torsional rod stiffness, torsional inertia and compound-pendulum inertia about the mass centre are the textbook functions of oscillation period, and the planar inertia components are the least-squares solution of J = Ixx cos^2 b - 2 Ixz sin b cos b + Izz sin^2 b over the measured orientations.',
  'inputs', 'all periods, masses, lengths and any number of orientations',
  'Only individual numeric cases exist and they are not in the reliable set.', ['inertia.py'],
  [('stiffness', 'inertia.py torsional_pendulum_stiffness'), ('inertia', 'inertia.py tor_inertia, compound_pendulum_inertia'), ('components', 'inertia.py inertia_components')])
p('C15', 'Bicycle geometry from measurements satisfies the frame geometry',
  'Wheel radii, steer-axis tilt, wheelbase, trail and fork offset computed from the direct measurements, and from the alternative frame-distance measurements, satisfy the planar geometry they came from (rolling radius from rolled distance, tilt from head angle, trail from tilt, radius and offset; frame-distance construction consistent with the published equations). The handlebar reference point lengths satisfy their defining triangle.',
  'inputs', 'all measured values', 'Covered by unreliable (data-dependent) tests only, at single values.', ['geometry.py', 'bicycle.py'],
  [('benchmark geometry', 'geometry.py calculate_benchmark_geometry'), ('distances', 'geometry.py calculate_abc_geometry, calculate_l1_l2'), ('trail', 'bicycle.py trail, lambda_from_abc')])
p('C16', 'Analytic geometry helpers return what they name',
  'Distance to the steer axis, point-to-line distance, projection of a point on a line, angle between vectors, projection of a vector on a direction, the two-link angle solution and the reference-to-handlebar vector all satisfy their defining geometric identities.',
  'inputs', 'all points, lines, vectors and link lengths', 'Sampled at a handful of values.', ['geometry.py'],
  [('helpers', 'geometry.py distance_to_steer_axis, point_to_line_distance, project_point_on_line, vec_angle, vec_project, calc_two_link_angles')])
p('C17', 'Mass centres come from the correct pendulum lines and their intersection',
  'Each pendulum orientation of a part gives a line in the bicycle frame determined by its measured angle and its perpendicular distance to the reference axis of that part (rear wheel, front wheel, or steer-axis point), and the mass centre is the least-squares (mean of pairwise, as documented) intersection of those lines. The total mass centre of a group is the mass-weighted mean.',
  'inputs', 'all measured angles, distances and numbers of orientations', 'Data-dependent tests at single values only.', ['com.py'],
  [('line', 'com.py com_line'), ('intersection', 'com.py center_of_mass'), ('lines per part', 'com.py part_com_lines')])
p('C18', 'The measured-to-benchmark pipeline wires every quantity to the right source',
  'Each benchmark parameter computed from raw measurements is derived from the measurements of the same body and axis (compound period to yy inertia, torsional period to the axis it was hung on, wheel to wheel), including the split fork/handlebar case and the flywheel case, where the fork and handlebar are recombined and the flywheel is the measured wheel-plus-flywheel minus the wheel. Input measurements are not modified.',
  'inputs', 'all measurement dictionaries, with or without a split fork or a flywheel', 'Needs raw data sets that are not all present; the reliable tests never run it.', ['main.py'],
  [('pipeline', 'main.py calculate_benchmark_from_measured')])
p('C20', 'The oscillation fit model, its Jacobian and its statistics are consistent',
  'The analytic Jacobian of the decaying-oscillation model is exactly its derivative with respect to each coefficient in the coefficient order the model uses; the reported period is 2 pi over the damped frequency formed from the same coefficients with their fitted uncertainty; the uncertainties of those coefficients come from the inverse of the Jacobian normal matrix times the residual variance; the goodness figures are the coefficient of determination and the error, total and regression sums of squares.',
  'inputs', 'all coefficients and times', 'Tests compare one fit.', ['period.py'],
  [('Jacobian', 'period.py jac_fitfunc'), ('model', 'period.py get_period'), ('goodness', 'period.py fit_goodness')])
p('C21', 'Every needed period is computed, named and stored consistently',
  'The names under which oscillation periods are stored are exactly those the inertia computation reads, for every pendulum type, part and orientation, with and without a split fork; a data set is treated as complete only when every needed name is present, and repeated trials for the same name are averaged.',
  'inputs', 'every part, pendulum, orientation and fork configuration', 'No reliable test.', ['period.py', 'main.py'],
  [('key', 'period.py get_period_key'), ('completeness', 'period.py check_for_period'), ('consumption', 'main.py calculate_benchmark_from_measured')])
p('C22', 'Parameter text files: what is written is what is read back',
  'The text written for each parameter (name, separator, value, optional uncertainty marker) is in the grammar the reader accepts, one parameter per line and every parameter exactly once, with uncertainties written exactly for values that carry them. Reading splits name from value at the same separator, multi-value entries are averaged, and comments are dropped.',
  'inputs', 'every dictionary of finite real or uncertain values', 'No reliable round-trip test.', ['io.py'],
  [('writer', 'io.py write_parameter_text_file'), ('reader', 'io.py load_parameter_text_file')])
p('C23', 'Parameter file writer: overwrite, handle and result are handled truthfully',
  'An existing parameter file is overwritten only when the user agrees; otherwise nothing is touched. Every file opened by the package is closed on every normal path, and the writer reports success exactly when it wrote the file.',
  ['histories', 'inputs'], 'existing or missing target, every user answer, existing or missing directory', 'Interactive path is never tested.', ['io.py', 'main.py', 'tables.py'],
  [('writer', 'io.py write_parameter_text_file')])
p('C24', 'Saving periods preserves the rest of the measurement file',
  'Writing computed periods into a raw measurement file keeps every line that does not define a period, writes each period of the given set exactly once on a line of its own, and keeps line structure whether or not the file ends with a newline. Recalculating some periods from recordings does not remove the others that were in the file.',
  ['inputs', 'histories'], 'every existing file content and every set of periods', 'No reliable test.', ['io.py'],
  [('writer', 'io.py write_periods_to_file')])
p('C25', 'A bicycle loads parameters by the documented policy',
  'Loading a bicycle uses existing parameter files unless recalculation is forced or none exist, in which case the raw measurements are used; forcing recalculation without raw data, or a bicycle without any data, is refused or reported and never answered with invented data. Rider data is loaded if present, and the loaded rider bicycle is what later queries use.',
  'configurations', 'every combination of existing directories and files and force flags', 'Tests need data that are absent.', ['main.py'],
  [('loader', 'main.py Bicycle.__init__'), ('rider', 'main.py Bicycle.add_rider')])
p('C26', 'Saved parameter files are found and keyed identically on reload',
  'Saving all of a bicycle\'s parameter sets writes one file per set whose name consists of the bicycle name and the set name, independent of the order or number of sets, and the loader recovers exactly that set name from the file name.',
  ['inputs', 'histories'], 'every set of parameter set names and save order', 'No reliable test.', ['main.py', 'io.py'],
  [('save', 'main.py Bicycle.save_parameters'), ('load', 'main.py Bicycle.__init__, io.py filename_to_dict')])
p('C27', 'Eigenvectors stay paired with their eigenvalues',
  'Eigenvalues and eigenvectors returned for a model or bicycle come from the same decomposition of the state matrix at the given parameters, with the same slice index and column index; left eigenvectors are those of the transposed matrix. A scalar speed of any real numeric type gives a one-row result.',
  'inputs', 'all parameters, scalar or arrays; scalar or array speeds', 'One bicycle is sampled.', ['models.py', 'main.py'],
  [('eigen', 'models.py _Model.calc_eigen'), ('bicycle', 'main.py Bicycle.eig')])
p('C28', 'Mode tracking permutes modes without losing or duplicating any',
  'Ordering modes along a sweep gives, at every step, a permutation of that step\'s eigenvalues with each eigenvector moved together with its own eigenvalue; inputs are not modified.',
  'inputs', 'every sequence of spectra', 'Only easy sweeps with no conflicting nearest neighbour are tested.', ['bicycle.py'],
  [('tracking', 'bicycle.py sort_modes, sort_eigenmodes')])
p('C29', 'Model and parameter descriptor tables are complete and consistent',
  'For every model the state and input names, symbols and units have one entry per state or input, in the order of the matrices the model returns, and for every parameterization each required parameter has a distinct symbol that names that parameter and the bodies used in it are all described.',
  'configurations', 'all models and parameterizations', 'Only displayed values; never cross-checked.', ['models.py', 'parameter_sets.py', 'tables.py'],
  [('descriptor tables', 'models.py state_vars*/input_vars*'), ('symbols', 'parameter_sets.py par_strings')])
p('C30', 'The leaning-rider model feeds and reads its equations in matching order',
  'The leaning-rider model passes every parameter, state and speed-dependent equilibrium value into the generated equations in the slot they are unpacked from, evaluates at rolling equilibrium (rear wheel spin rate equal to minus speed over rear radius, front likewise), and the retained rows and columns correspond to the advertised states and inputs.',
  'inputs', 'all parameter values, scalar or array', 'Only one numeric configuration is compared.', ['models.py', '_mooreriderlean2012.py'],
  [('wiring', 'models.py MooreRiderLean2012Model.form_state_space_matrices'), ('unpacking', '_mooreriderlean2012.py eval_linear')])
p('C31', 'Simulations integrate the model\'s own equations with the given input',
  'A simulation integrates exactly x\' = A x + B u with A, B of the model at the given overrides, u the supplied input function evaluated at the current time and state (or zero / feedback as documented), from the supplied initial condition over the supplied times, and the reported inputs are the inputs used. Mode simulations start from the real part of an eigenvector.',
  'inputs', 'all input functions, initial conditions, times and parameters', 'Only shapes are tested.', ['models.py'],
  [('simulate', 'models.py _Model.simulate'), ('modes', 'models.py _Model.simulate_modes')])
p('C32', 'Modal controllability is the normalised left-eigenvector input coupling',
  'Each modal controllability value is the angle cosine between a left eigenvector and an input column (absolute value over product of norms, or its angle), for the eigenvector and input that its position names.',
  'inputs', 'all parameters', 'Not tested by value.', ['models.py'],
  [('controllability', 'models.py Meijaard2007Model._calc_modal_controllability')])
p('C33', 'Plots show the quantities their labels name',
  'Curves, arrows, markers and shapes drawn for a component use that component\'s own data, label and style: eigenvalue parts, eigenvector components, simulated states and inputs, feedback gains, mass centres, radii of gyration and inertia ellipsoids, wheel circles and steer axis. Sizes drawn are those computed (full widths are twice the semi-axes).',
  'inputs', 'all parameter values and options', 'Tests only check plotting does not crash.', ['models.py', 'parameter_sets.py', 'plot.py', 'geometry.py'],
  [('plots', 'models.py plot_*, parameter_sets.py plot_*'), ('ellipse', 'plot.py _generate_ellipse_plot_data'), ('geometry', 'geometry.py fundamental_geometry_plot_data')])
p('C34', 'Parameter tables show the right value in the right cell, every time',
  'A generated table has one row per variable and, for each bicycle in the given order, that bicycle\'s value (and uncertainty when measured values are listed) of exactly that variable; generating the table twice gives the same text.',
  ['inputs', 'histories'], 'every list of bicycles and variable set, repeated calls', 'Not reliably tested.', ['tables.py'],
  [('table', 'tables.py Table')])
p('C35', 'Web app tables map to parameters one-to-one and graphs to their panels',
  'Every editable cell of the web app maps to exactly one parameter and back: filling the tables from a bicycle and recomputing without edits uses exactly that bicycle\'s parameters, with the steer axis tilt shown in degrees and used in radians without truncation. Each recomputed figure goes to the panel that displays it.',
  ['inputs', 'histories'], 'every bicycle, every edit, every option combination', 'The app is only imported.', ['app.py'],
  [('callbacks', 'app.py populate_*_data, plot_update')])
p('C36', 'Steer assembly inertia is about the steer axis and includes the chosen parts',
  'The moment of inertia of the steering assembly is the sum, over exactly the chosen parts (handlebar, fork, wheel), of each part\'s inertia about the steer axis: its own tensor resolved along the tilted axis plus its mass times squared distance to the axis; the nominal option strips uncertainties and nothing else.',
  'inputs', 'all parameter values and part choices', 'Data-dependent tests only.', ['main.py', 'geometry.py'],
  [('steer inertia', 'main.py Bicycle.steer_assembly_moment_of_inertia')])
p('C37', 'Uncertainties are carried through every computation until explicitly stripped',
  'Wherever measured quantities are turned into parameters, every value derived from an uncertain measurement stays an uncertain value: no step silently drops to a nominal value, or would fail on it, except where the user asks for nominal values, and stripping uncertainties keeps every nominal value and key.',
  'inputs', 'all uncertain inputs', 'Tests use mostly floats; uncertain paths are not reliable.', ['inertia.py', 'geometry.py', 'com.py', 'main.py', 'bicycle.py', 'io.py'],
  [('strip', 'io.py remove_uncertainties'), ('uncertainty-aware math', 'geometry.py, inertia.py, com.py, bicycle.py')])
p('C38', 'Shipped parameter data sets are complete and physically admissible',
  'Every parameter data set shipped with the package contains every parameter its parameterization requires, exactly once, as plain numbers, with positive masses, lengths and moments of inertia, valid inertia tensors and consistent geometry.',
  'configurations', 'all shipped data sets', 'Tests use only some of them and do not look at individual values.', ['parameter_dicts.py', 'parameter_sets.py'],
  [('data', 'parameter_dicts.py')])
p('C40', 'The generated leaning-rider equations are well formed',
  'Every intermediate of the generated linear leaning-rider equations is defined exactly once before use and depends on inputs only, every declared parameter participates, the state matrix\'s kinematic rows are consistent and every equation is dimensionally homogeneous.',
  'inputs', 'all numerical inputs', 'One numeric point is compared.', ['_mooreriderlean2012.py'],
  [('generated code', '_mooreriderlean2012.py eval_linear')])
p('C41', 'Physics formulas are dimensionally homogeneous',
  'In every formula that turns measurements or parameters into physical quantities, added or compared terms have the same physical dimension, arguments of trigonometric functions are angles, and each result has the dimension its parameter is documented to have.',
  'inputs', 'all values', 'Dimensional mistakes that are numerically small at the sampled bicycle pass.', ['bicycle.py', 'geometry.py', 'inertia.py', 'com.py', 'conversions.py', 'main.py', 'rider.py'],
  [('formulas', 'bicycle.py, geometry.py, inertia.py, com.py, conversions.py, main.py')])
p('C42', 'Frequency response plots select the requested channel',
  'A Bode plot for a chosen output and input uses exactly the row of that output and the column of that input at the requested speed, magnitude and phase from the same channel, and the comparison across speeds or bicycles labels each curve with its own speed or bicycle.',
  'inputs', 'all speeds, outputs, inputs and lists of bicycles', 'Never tested.', ['main.py', 'plot.py'],
  [('bode', 'main.py Bicycle.plot_bode, compare_bode_speeds'), ('compare', 'plot.py compare_bode_bicycles')])
p('C43', 'No documented option combination uses a value that was never computed',
  'Along every path through every public function, each value is computed before it is used, whatever combination of documented options is chosen.',
  ['inputs', 'configurations'], 'every combination of options and branches', 'Tests exercise the default options only.',
  ['main.py', 'models.py', 'parameter_sets.py', 'plot.py', 'tables.py', 'app.py', 'period.py', 'io.py', 'geometry.py', 'rider.py'],
  [('all functions', '*.py')])
# not applicable
p('C50', 'Simulated trajectories are accurate to the integrator tolerance',
  'A simulated trajectory differs from the exact solution of the linear model by no more than the integrator tolerance over the requested times.',
  'inputs', 'all parameters, inputs and time spans', 'Only shapes tested.', ['models.py'], [('integrator', 'models.py _Model.simulate')])
p('C51', 'Fitted oscillation periods converge to the true period',
  'For a recorded decaying oscillation with measurement noise, the fitted period lies within its stated uncertainty of the true period.',
  'inputs', 'all recordings', 'One recording tested.', ['period.py'], [('fit', 'period.py get_period')])
p('C52', 'The computed rider posture closes the kinematic loops',
  'The rider configuration found places hands on the grips and feet on the pedals to within solver tolerance whenever such a posture exists.',
  'inputs', 'all riders and bicycles', 'Needs absent data.', ['rider.py'], [('solver', 'rider.py rider_on_bike')])
p('C53', 'Computed eigenvalues are accurate and stability speeds are exact crossings',
  'Eigenvalues are accurate to rounding, so that reported stability-range speeds are the true zero crossings of the real parts to within the speed step.',
  'inputs', 'all parameters', 'One bicycle tested.', ['models.py', 'main.py'], [('eigenvalues', 'models.py _Model.calc_eigen')])
p('C54', 'Values survive a text round trip numerically',
  'The floating-point value read back from a written parameter file equals the value written to the precision of the text.',
  'inputs', 'all floats', 'Not tested.', ['io.py'], [('text format', 'io.py write_parameter_text_file')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
print(len(P))
