"""Writes properties.jsonl. Kept so that the text is edited in one place"""
import json
import os

B = 'moirae/models/base.py'
E = 'moirae/models/ecm/__init__.py'
EA = 'moirae/models/ecm/advancedSOH.py'
EC = 'moirae/models/ecm/components.py'
EU = 'moirae/models/ecm/utils.py'
ET = 'moirae/models/ecm/transient.py'
S = 'moirae/simulator.py'
UK = 'moirae/estimators/online/filters/kalman/unscented.py'
KU = 'moirae/estimators/online/filters/kalman/utils.py'
CV = 'moirae/estimators/online/filters/conversions.py'
DI = 'moirae/estimators/online/filters/distributions.py'
MW = 'moirae/estimators/online/utils/model.py'
ON = 'moirae/estimators/online/__init__.py'
JO = 'moirae/estimators/online/joint.py'
DU = 'moirae/estimators/online/dual.py'
IF = 'moirae/interface/__init__.py'
H5 = 'moirae/interface/hdf5.py'
LO = 'moirae/estimators/offline/loss.py'
SC = 'moirae/estimators/offline/scipy.py'
EX = 'moirae/extractors/ecm.py'
TH = 'moirae/models/thevenin/__init__.py'
TC = 'moirae/models/thevenin/components.py'
TS = 'moirae/models/thevenin/state.py'

P = []


def prop(pid, title, statement, over, text, why, mechanism, state=(), observe=()):
    assert len(title) <= 80, (pid, len(title))
    files = []
    for _, where in mechanism:
        f = where.split(':')[0]
        if f not in files:
            files.append(f)
    anchors = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mechanism]}
    if state:
        anchors['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        anchors['observe_at'] = list(observe)
    anchors['hook_needed'] = None
    P.append({'id': pid, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': anchors})


prop('C01', 'Every health parameter has one name, and all views of names agree',
     'Every numeric value within a health description, however its parts are nested in fields, tuples or dictionaries '
     'and whatever its length or batch size, is reachable through exactly one dotted name. The list of names, the '
     'list of one name per number, the number of updatable values, the vector of values and the values read name by '
     'name all describe the same values in the same order. Expanding the name of a group gives exactly the names of '
     'the numbers in the group, in that order.',
     ['inputs', 'configurations'],
     'every nesting of scalar, list, sub-model, tuple and dictionary fields up to a depth, every subset of updatable '
     'names, and every order of requested names',
     'Tests use one fixed nested class and a few names; the agreement must hold for every shape of model and every '
     'subset of names.',
     [('iter_parameters / updatable_names / all_names', B + ':iter_parameters'),
      ('expand_names', B + ':HealthVariable.expand_names'),
      ('get_parameters', B + ':get_parameters'), ('_get_model_chain', B + ':_get_model_chain'),
      ('soc_pinpoints are not parameters', EU + ':SOCInterpolatedHealth.iter_parameters')])

prop('C02', 'Only parameters marked updatable along their whole path can be estimated',
     'A parameter is offered for estimation exactly when it and every part which contains it are marked as updatable, '
     'after any history of marking single names, everything, everything at the top level only, or nothing, in the whole or in a part of it. Marking '
     'one name marks that path and no other. A request to update a parameter which is not updatable is refused and '
     'leaves that parameter as it was.',
     ['histories', 'inputs'],
     'every history of marking operations up to a depth over nested models, with an update of every parameter '
     'attempted in every reachable marking',
     'Tests apply one or two marking calls; the guarantee is about any sequence of them.',
     [('mark_updatable, mark_all_updatable, mark_all_fixed', B + ':mark_updatable'),
      ('updatable check before writing', B + ':update_parameters'), ('iter_parameters', B + ':iter_parameters')],
     state=[('updatable', 'names of the fields of one part which may be estimated', B + ':HealthVariable.updatable')])

prop('C03', 'Health values read back as last written, and copies never share them',
     'After any sequence of writes to a health description, by vector, by name, or through a copy made with new '
     'values, each parameter reads back as the last value written to it, no other parameter changes, and batch sizes '
     'follow what was written. A copy, the object it was made from, the arrays used to write values, and the parts of '
     'a default circuit never share values, so that changing one leaves the others as they were. Setting the '
     'capacity in Amp-seconds or in Amp-hours is the same write.',
     ['histories', 'inputs'],
     'every sequence of write, set-by-name, copy and re-batch operations up to a depth over circuits with lists, '
     'tuples and batches',
     'Tests write once and read once, and never change a value after copying; aliasing needs histories.',
     [('update_parameters', B + ':update_parameters'), ('set_value', B + ':set_value'),
      ('make_copy', B + ':HealthVariable.make_copy'), ('capacity setter', EC + ':MaxTheoreticalCapacity.value'),
      ('independent RC elements', EA + ':provide_template')])

prop('C04', 'State, input and output containers convert to and from vectors without loss',
     'Converting a container of states, inputs or outputs to a vector and back gives the same container, for any mix '
     'of scalar, list and absent fields and any batch sizes which broadcast, with absent fields staying absent and '
     'the vector ordered as the list of names. The length, the names and the width of the vector agree. Containers '
     'never share memory with the arrays used to fill them or with their copies.',
     ['inputs', 'histories'],
     'every presence pattern of optional fields, list length 0-3 and batch size 1-3 per field, and every sequence of '
     'fill and copy operations up to a depth',
     'Tests convert a handful of containers, none with mixed batch sizes and absent fields, and do not check sharing.',
     [('to_numpy', B + ':GeneralContainer.to_numpy'), ('from_numpy', B + ':GeneralContainer.from_numpy'),
      ('make_copy', B + ':GeneralContainer.make_copy'), ('expand_names', B + ':GeneralContainer.expand_names'),
      ('batch_size', B + ':GeneralContainer.batch_size'), ('provide_template', ET + ':provide_template')])

prop('C05', 'Health descriptions and containers survive a trip through JSON',
     'Writing a health description or container to JSON and reading it back gives an object with the same values, '
     'names, batch sizes, updatable parameters, SOC pinpoints and interpolation styles, which behaves the same when '
     'evaluated or simulated. This holds whatever the history of the object: fresh, evaluated, updated, batched or '
     'itself read from JSON.',
     ['inputs', 'histories'],
     'every circuit shape in the alphabet, after every sequence of evaluate / update / batch / mark / reload '
     'operations up to a depth',
     'One test reloads one fresh object; whether a reload works depends on what was done to the object before.',
     [('array (de)serialization', B + ':_encode_ndarray'), ('pinpoint (de)serialization', EU + ':_serialize_numpy'),
      ('lazily set pinpoints', EU + ':_interp_func')])

prop('C06', 'Circuit parameters follow their SOC and temperature dependence',
     'The value of a circuit parameter at an SOC passes through its values at the SOC pinpoints (evenly spaced over '
     '0 to 1 unless given) according to its interpolation style, extrapolates with the same rule outside them, and is '
     'constant if there is only one value. Resistances scale by exp(-factor (T - Tref)), the open circuit voltage '
     'shifts by (T - Tref) times the entropic term, and an omitted temperature means the reference one. The '
     'theoretical energy is the capacity times the integral of the open circuit voltage over the SOC window, '
     'whichever way round its limits are given, for each member of a batch.',
     ['inputs'],
     'every combination of number of pinpoints, spacing, interpolation style, batch sizes, SOC argument shape, '
     'temperature and window in the alphabet',
     'Tests evaluate a few linear interpolants at single shapes and temperatures.',
     [('get_value', EU + ':SOCInterpolatedHealth.get_value'), ('temperature', EC + ':Resistance.get_value'),
      ('entropy', EC + ':OpenCircuitVoltage.get_value'), ('energy', EA + ':get_theoretical_energy'),
      ('time constant', EC + ':RCComponent.time_constant')])

prop('C07', 'Charge is conserved: SOC and stored charge follow the integral of current',
     'Over any sequence of steps the state of charge changes by the charge passed divided by capacity, times the '
     'coulombic efficiency while charging only, and the charge in the series capacitor changes by exactly the charge '
     'passed. The charge passed in a step is the start current times its duration if current is held constant, and '
     'the trapezoid of the start and end currents if current is linear, so splitting a step along its current profile '
     'changes nothing as long as the current keeps its sign, and a step of no duration leaves both as they were. '
     'Whether a step is charging is decided once for the whole step, by its start current (its end current if a '
     'linear current starts from zero). Neither depends on any other part of the circuit.',
     ['histories', 'inputs', 'configurations'],
     'every sequence up to a depth of steps over currents of both signs and zero and durations including zero, for '
     'both current behaviours, coulombic efficiencies and presence of the series capacitor',
     'Tests run one profile per circuit with fixed sign; conservation is about every schedule of currents.',
     [('SOC update', E + ':update_transient_state'), ('coulombic efficiency direction', E + ':update_transient_state'),
      ('q0 update', E + ':update_transient_state')])

prop('C08', 'RC branch currents relax exactly to the applied current',
     'The current through each RC element relaxes with time constant R times C, both taken at the SOC and '
     'temperature at the start of the step, towards the applied current. If current is held constant the branch '
     'approaches the new current by the fraction 1 - exp(-dt/RC); if it is linear the branch follows the exact '
     'solution of the linear ramp from the start to the end current. A step of no duration changes nothing, splitting '
     'a step changes nothing while RC is unchanged, and each element evolves as if it were the only one.',
     ['histories', 'inputs', 'configurations'],
     'every sequence up to a depth of steps over the current and duration alphabets, for 1-3 elements with distinct, '
     'SOC- and temperature-dependent R and C, for both current behaviours',
     'Tests check one constant-current step from rest.',
     [('RC update', E + ':update_transient_state'), ('time_constant', EC + ':RCComponent.time_constant')])

prop('C09', 'Hysteresis approaches its limit at the rate set by the charge passed',
     'The hysteresis voltage obeys dh/dt = k |I| (M sign(I) - h), where k is the approach rate times coulombic '
     'efficiency over capacity and M is the limit at the SOC at the start of the step, in every step including those '
     'in which a linear current starts at, ends at or passes through zero. It therefore never overshoots the limit '
     'it approaches, does not move without current, and does not change in a step of no duration. Splitting a step '
     'along its current profile changes nothing while M is unchanged and, if the coulombic efficiency is not one, the '
     'current keeps its sign.',
     ['histories', 'inputs', 'configurations'],
     'every sequence up to a depth of steps over currents of both signs and zero (all sign patterns of start and end '
     'current) and durations including zero, for both current behaviours',
     'Tests check a few sign patterns; each pattern takes a different branch of the solver.',
     [('hysteresis update and split at zero current', E + ':update_transient_state'),
      ('constant sign solution', EU + ':hysteresis_solver_const_sign')])

prop('C10', 'Terminal voltage is the sum of the contributions of the circuit elements',
     'For any state, health and input, the terminal voltage is the open circuit voltage plus current times series '
     'resistance, plus stored charge over series capacitance if there is one, plus each RC branch current times its '
     'resistance, plus the hysteresis voltage, with each parameter evaluated at the SOC of the state and the '
     'temperature of the input. Evaluating it changes none of its arguments, and neither does advancing the state.',
     ['inputs', 'configurations'],
     'every combination of circuit shape (series capacitor, 0-3 RC elements, SOC- and temperature-dependence) with '
     'the state, current and temperature alphabets',
     'Tests compare selected circuits at selected points.',
     [('calculate_terminal_voltage', E + ':calculate_terminal_voltage'), ('get_value', EU + ':get_value')])

prop('C11', 'A batch behaves as each of its members would alone',
     'Advancing the state, predicting the voltage, or simulating a history with batched states, health parameters or '
     'inputs gives for each member what the same call gives for that member alone, for every choice of which fields '
     'are batched. The result has one row per member. Unbatched and repeated values are interchangeable.',
     ['inputs', 'configurations'],
     'every subset of batched fields (states, each health component, inputs), batch sizes 1-3, both current '
     'behaviours, and step sequences with mixed current signs among the members',
     'Tests batch one component at a time, with members that take the same branches.',
     [('broadcasting in update', E + ':update_transient_state'),
      ('broadcasting in voltage', E + ':calculate_terminal_voltage'), ('get_value', EU + ':get_value'),
      ('batched history', S + ':to_dataframe')])

prop('C12', 'A simulator is the fold of its model over the inputs, and history records it',
     'Stepping a simulator, or evolving it over a list of inputs, gives exactly the states, voltages and health '
     'obtained by applying the model and then the degradation model to each input in turn, however the inputs are '
     'split over calls. The history holds the initial condition and one entry per step, in order, and entries never '
     'change afterwards. The objects given by the user are never changed, and changing them later does not '
     'influence the simulation.',
     ['histories', 'inputs'],
     'every sequence of step, evolve, and mutation-of-arguments operations up to a depth, with and without history '
     'and with degradation models which depend on each of their arguments',
     'Tests run single fixed histories without degradation and never touch the arguments afterwards.',
     [('step', S + ':Simulator.step'), ('evolve', S + ':Simulator.evolve'), ('initial copies', S + ':__init__')],
     state=[('history lists', 'initial condition followed by one entry per step', S + ':transient_history')])

prop('C13', 'Exported tables hold the simulated history of the right member of the batch',
     'The table exported from a simulator has one row per time and member of the batch, in which the inputs, states '
     'and outputs are those recorded for that member at that time and are labelled with the member and with the '
     'names of the values. The battery datasets exported from it are one per member, in order, each with that '
     "member's whole history under the standard column names. Asking for an export without history is refused.",
     ['histories', 'configurations'],
     'every circuit shape, batch size 1-3, which part is batched and number of steps 0-3',
     'Tests export unbatched histories or check only shapes.',
     [('to_dataframe', S + ':to_dataframe'), ('to_batdata', S + ':to_batdata')])

prop('C14', 'The unscented filter is exact for linear models whatever its tuning',
     'For a linear model with Gaussian noise, the filter gives after every step the mean and covariance of the '
     'Kalman filter, along with its predicted output distribution, for every admissible alpha, beta and kappa, every '
     'dimension, every history of controls and measurements, and every process and sensor noise covariance. '
     'Inadmissible tuning or mismatched dimensions are refused.',
     ['histories', 'inputs', 'configurations'],
     'every combination of tuning values, hidden and output dimensions 1-3, dynamics in the alphabet, and every '
     'measurement / control history up to a depth',
     'Tests compare one system with one tuning by loose tolerances.',
     [('sigma points', UK + ':build_sigma_points'), ('weights', UK + ':mean_weights'),
      ('estimation update', UK + ':estimation_update'), ('correction', UK + ':correction_update'),
      ('gain', KU + ':calculate_gain_matrix')])

prop('C15', 'Covariances stay symmetric and positive semi-definite, and estimates finite',
     'After every step of a filter or estimator the covariances of the state and of the predicted output are '
     'symmetric and positive semi-definite to within round-off, also for initial covariances which are singular and '
     'for noise of zero or widely different scales (as long as the predicted output is uncertain at all). Only if a '
     'tuning has negative weights may the output of a nonlinear model be an exception. Repairing a matrix returns one that is symmetric, positive '
     'semi-definite, factorizable, as close as possible to the symmetric part of the input, and equal to the input if '
     'it already qualifies.',
     ['histories', 'inputs'],
     'every symmetric and asymmetric matrix over a small integer alphabet up to dimension 3, and every history up to '
     'a depth of filter steps from regular and singular covariances',
     'Tests check the repair on a few matrices and step from well-conditioned covariances.',
     [('ensure_positive_semi_definite', KU + ':ensure_positive_semi_definite'),
      ('nearest matrix', KU + ':enforce_positive_semi_defiteness'),
      ('use in filter', UK + ':correction_update'), ('use in sigma points', UK + ':build_sigma_points')])

prop('C16', 'Coordinate conversions are inverses and carry covariances accordingly',
     'Converting points to another coordinate system and back gives the original points, for single points and '
     'stacks alike, on the domain where the conversion is invertible. Covariances convert by the Jacobian of the '
     'point conversion at the pivot, and the inverse uses the Jacobian of the inverse conversion. Conversions never '
     'change their arguments, and conversions with offsets shift points but not covariances.',
     ['inputs', 'configurations'],
     'every operator in the alphabet (identity, scalar / vector / matrix linear with offsets, absolute value with '
     'every subset of indices) with every point and covariance over a small alphabet',
     'Tests check a few operators at random points; the sign patterns and subsets are not covered.',
     [('linear', CV + ':LinearConversionOperator'), ('absolute value', CV + ':AbsoluteValueConversionOperator'),
      ('first order covariances', CV + ':FirstOrderTaylorConversionOperator'),
      ('identity', CV + ':IdentityConversionOperator')])

prop('C17', 'Distributions combine, convert and validate without altering themselves',
     'Combining independent distributions stacks their means in order and their covariances in blocks, converting '
     'one applies the conversion to its mean and covariance, and a point distribution has no covariance. None of '
     'these change the distributions they are applied to, and arrays handed out do not give access to their '
     'insides. Means and covariances with inconsistent or invalid shapes are refused, on creation and on '
     'assignment, and a refused change leaves the distribution as it was.',
     ['inputs', 'histories'],
     'every tuple of distributions of dimension 1-3 up to a length, every operator, every shape up to a size, and '
     'every sequence of combine / convert / mutate operations up to a depth',
     'Tests combine one pair and try a few bad shapes.',
     [('combine_with', DI + ':combine_with'), ('convert', DI + ':convert'), ('validation', DI + ':fields_dim'),
      ('get_mean / get_covariance', DI + ':get_mean')])

prop('C18', 'Estimates do not depend on the coordinate system used inside the filter',
     'For every scaling or shift of the hidden states, controls and outputs used inside a filter, the sequence of '
     'state and output estimates reported in model units is the same as without it. This includes the normalization '
     'of health parameters offered when creating an estimator, from the initial state onwards.',
     ['configurations', 'histories'],
     'every combination of hidden / control / output conversions in the alphabet, for joint and dual estimators, and '
     'every history of inputs and measurements up to a depth',
     'Tests compare normalized runs visually or for one conversion at loose tolerance.',
     [('wrappers convert at every boundary', MW + ':JointCellModelWrapper'),
      ('dual wrappers', MW + ':DegradationModelWrapper'), ('joint step', JO + ':JointEstimator.step'),
      ('dual step', DU + ':DualEstimator.step'), ('normalization', JO + ':initialize_unscented_kalman_filter')])

prop('C19', 'Names, state vector and estimated objects of an estimator always agree',
     'At any point in the life of an estimator, the state distribution has one dimension per state name, transient '
     'states first, and each dimension of its mean is the value of that name in the estimated transient state and '
     'health objects. The state equals the last one returned by a step, or the initial values and covariances given '
     'by the user before any step. Parameters which are not estimated keep the values given by the user.',
     ['histories', 'configurations'],
     'every circuit shape, every subset (and order) of estimated parameters, joint and dual estimators with and '
     'without normalization, at every step of every history up to a depth',
     'Tests look at names or values for one subset, mostly after construction.',
     [('state', JO + ':JointEstimator.state'), ('state', DU + ':DualEstimator.state'),
      ('names', ON + ':state_names'), ('get_estimated_state', JO + ':get_estimated_state'),
      ('get_estimated_state', DU + ':get_estimated_state'), ('layout', MW + ':create_cell_model_inputs')])

prop('C20', 'Estimators are isolated from their creators, callers and each other',
     'The estimates of an estimator depend only on what it was created from and the steps applied to it. Objects '
     'used to create or step it are never changed by it; changing them, or anything it returned, afterwards does not '
     'change its estimates; and stepping one estimator in between the steps of another changes neither. A repeated '
     'history gives identical estimates.',
     ['schedules', 'histories'],
     'every interleaving of the steps of two or three estimators which share their creators, and every placement of '
     'a mutation of each shared object between the steps',
     'Tests run one estimator at a time and never touch the arguments or results afterwards.',
     [('copies in estimators', ON + ':__init__'), ('copies in wrappers', MW + ':BaseCellWrapper.__init__'),
      ('copies in filters', 'moirae/estimators/online/filters/base.py:BaseFilter.__init__'),
      ('copies of results', UK + ':step'), ('shared default arguments', DU + ':DualUKFTuningParameters')])

prop('C21', 'Joint estimation is the unscented filter applied to states and parameters',
     'Each step of a joint estimator gives the state and output distributions of the textbook unscented transform '
     'with additive noise, applied to the circuit model with the transient states advanced by that model from the '
     'previous to the new inputs, the estimated health parameters changed only by the degradation model (if any), '
     'and the voltage predicted at the new inputs. Means, covariances and noises given by the user apply in the '
     'order transient states, then parameters.',
     ['histories', 'configurations'],
     'every circuit shape in the alphabet, subset of estimated parameters, tuning, noise setting and degradation '
     'model, over every history of inputs and measurements up to a depth',
     'Tests check convergence on simulated data; a wrong gain, weight, noise placement or input still converges.',
     [('joint wrapper', MW + ':JointCellModelWrapper.update_hidden_states'), ('step', JO + ':JointEstimator.step'),
      ('filter', UK + ':UnscentedKalmanFilter.step'), ('set up', JO + ':initialize_ukf_from_wrapper')])

prop('C22', 'Dual estimation is two filters, each given the previous posterior of the other',
     'Each step of a dual estimator steps a filter over the transient states with health fixed at the previous '
     'posterior, and a filter over the health parameters whose predicted voltage advances the previous posterior '
     'transient state from the previous to the new inputs under each candidate health. The returned state is the two '
     'posteriors side by side, transient states first, without correlations between them. The predicted output is '
     'that of the transient filter.',
     ['histories', 'configurations'],
     'every circuit shape in the alphabet, subset of estimated parameters, tuning per filter and noise setting, over '
     'every history of inputs and measurements up to a depth',
     'Tests check convergence of one simulated case.',
     [('dual step', DU + ':DualEstimator.step'), ('transient wrapper', MW + ':CellModelWrapper'),
      ('health wrapper', MW + ':DegradationModelWrapper'), ('set up', DU + ':initialize_ukf_from_wrappers')])

prop('C23', 'Estimates over a dataset equal stepping the estimator through its rows',
     'Running an estimator over a dataset gives one row of results per row of data, equal to the mean and standard '
     'deviation of the state and output obtained by stepping the same estimator by hand through the rows in order, '
     'starting from the inputs of the first row, with a default temperature wherever it is absent or not finite. '
     'Result columns are named after the states and outputs. It makes no difference whether the dataset is in '
     'memory or streamed from a file, or which optional columns, indices or output options are used. Datasets and their '
     'files are not changed, and anything other than a dataset with a time series is refused.',
     ['inputs', 'configurations'],
     'every dataset of up to a few rows over the alphabets of time, current, temperature (present, absent, NaN), '
     'index and cycle columns, in memory and streamed, for both estimators and all output options',
     'Tests run complete simulated datasets and check only the shapes and convergence of the results.',
     [('run_online_estimate', IF + ':run_online_estimate'), ('row_to_inputs', IF + ':row_to_inputs'),
      ('first inputs', ON + ':set_previous_inputs')])

prop('C24', 'Estimates written to file are the ones read back, for every storage setting',
     'For every choice of what to store per step and per cycle, of fixed or growing storage, of expected sizes '
     'and of compression, reading the stored estimates gives the time and the state and output distribution (mean, '
     'variance, covariance, or all, as chosen) of every step in order, and of the first step of every cycle. Cycles '
     'may be absent, start anywhere and leave gaps. The metadata names the states, the outputs and the initial '
     'conditions, and asking for what was not stored, or writing twice in one place, is refused.',
     ['configurations', 'histories'],
     'every combination of storage settings with every sequence of cycle numbers in the alphabet and lengths around '
     'the sizes at which storage grows',
     'Tests write one or two setting combinations with contiguous cycles.',
     [('prepare', H5 + ':HDF5Writer.prepare'), ('append_step', H5 + ':HDF5Writer.append_step'),
      ('read_state_estimates', H5 + ':read_state_estimates')])

prop('C25', 'A failure while estimating leaves a readable file with the steps before it',
     'If the estimator, the data source or the storage fails at any point of a run that writes to a file, the '
     'error reaches the caller, no file is left open, and the file holds complete estimates for the steps that were '
     'finished and nothing of later ones. The writer and a repeated run to another file then work as if nothing had '
     'happened. A reader that is stopped early or that meets a file without estimates leaves no file open either.',
     ['fault_sequences', 'crash_points'],
     'an error injected at every storage operation, every estimator step and every row of short runs, one (thorough: '
     'two) per run, for each storage setting',
     'Tests contain no failing run at all.',
     [('context manager', H5 + ':HDF5Writer.__exit__'), ('write order', H5 + ':append_step'),
      ('reader clean up', H5 + ':read_state_estimates'), ('run', IF + ':run_online_estimate')])

prop('C26', 'The loss of a parameter set is the mean squared voltage error of simulating it',
     'The loss of each candidate in a batch is the mean over all observations of the squared difference between the '
     'observed voltage and the voltage of a simulation that starts from the candidate state with the inputs of the '
     'first row and uses the candidate health, and does not depend on the other candidates. The initial guess lists '
     'the transient states and then the updatable parameters, and its loss is zero for data simulated from it. '
     'Evaluating the loss changes neither the observations nor the guesses, and changing the guesses after they were '
     'given has no effect.',
     ['inputs', 'configurations'],
     'every circuit shape, subset of updatable parameters, dataset over the input alphabets, and batch of candidates '
     'in the alphabet, in every order',
     'Tests evaluate one candidate, or a batch of equal ones.',
     [('MeanSquaredLoss', LO + ':MeanSquaredLoss.__call__'), ('get_x0', LO + ':get_x0'),
      ('row_to_inputs', IF + ':row_to_inputs')])

prop('C27', 'Offline estimation reports exactly the point found by the optimizer',
     'The optimizer starts from the initial guess and minimizes the loss up to a positive factor fixed by the loss '
     'of that guess, and the reported states, health and diagnostics are those of the point it returns, with '
     'transient states first and only updatable parameters changed. All options of the caller reach the optimizer. '
     'Estimating changes neither the initial guess nor the data, so repeating it gives the same answer.',
     ['inputs', 'histories', 'configurations'],
     'every sequence of points an optimizer may ask for and return in the alphabet, for every circuit shape and '
     'subset of updatable parameters',
     'Tests run a real optimizer and look only at whether it converged.',
     [('ScipyMinimizer', SC + ':ScipyMinimizer.estimate'), ('get_x0', LO + ':get_x0')])

prop('C28', 'Extractors recover the capacity and open circuit voltage behind the data',
     'The extracted capacity is the largest charge capacity over all cycles, computed from the data if it is not '
     'tabulated. The extracted open circuit voltage reproduces, at the requested SOC points, any voltage curve that '
     'is a cubic polynomial of SOC, for every current profile and order of the rows, and weights points inversely to '
     'current otherwise. Data that do not sample enough of the capacity or lack the time series are refused, and '
     'time series are never modified.',
     ['inputs', 'configurations'],
     'every cycle table, polynomial, SOC grid, capacity, current profile and row order in the alphabet',
     'Tests use one realistic dataset and loose tolerances.',
     [('MaxCapacityExtractor', EX + ':MaxCapacityExtractor'), ('OCVExtractor', EX + ':OCVExtractor.interpolate_ocv'),
      ('check_data', EX + ':check_data')])

prop('C29', 'The Thevenin adapter passes the right member, sign and units to the solver',
     'For each member of a batch, the adapter hands the solver that member\'s state of charge, overpotentials, health, environment temperature and current '
     '(with opposite sign convention) for the elapsed time, with resistances, capacitances and open circuit voltage '
     'as functions of SOC and temperature, and returns the solved SOC, temperature and overpotentials in the row of '
     'that member. Its terminal voltage is the open circuit voltage plus current times series resistance minus the '
     'sum of overpotentials. A step of no duration returns the state as it was.',
     ['inputs', 'configurations'],
     'every choice of which fields are batched, 0-2 RC elements, isothermal or not, currents and durations in the '
     'alphabet, against a recording solver',
     'The solver is an optional package which is not installed, so the tests of this part do not run here.',
     [('_make_models', TH + ':_make_models'), ('update', TH + ':update_transient_state'),
      ('voltage', TH + ':calculate_terminal_voltage'), ('polynomials', TC + ':SOCTempPolynomialVariable'),
      ('state', TS + ':TheveninTransient')])

prop('C30', 'Templates build the circuit they describe, and objects share nothing',
     'Templates of circuits have exactly the elements and values that were asked for, whatever form values are given in, templates of states and '
     'fresh states fit the circuit and are at rest, and arguments which contradict each other or the circuit are refused. Objects that are built '
     'the same way, from defaults, from the same arguments, or as a deep or made copy of another, are equal but independent: changing any value '
     'or mark of one changes no other, nor what is built later.',
     ['inputs', 'histories', 'configurations'],
     'every combination of elements, number of RC elements and form of each value in the alphabet; every pair of objects built in every way, and every change of one of them',
     'Tests build each template once and look at a few of its values; state shared between objects shows only when two of them are used.',
     [('provide_template', EA + ':ECMASOH.provide_template'), ('state template', ET + ':ECMTransientVector'), ('fresh state', B + ':GeneralContainer'),
      ('copies', B + ':HealthVariable.make_copy'), ('components', EC + ':Resistance')])

prop('C31', 'Users of the same objects and files do not notice each other',
     'Any number of simulators, losses, optimizers, estimators, estimates over datasets, writers, readers, extractors and direct calls of models can be created from '
     'the very same health, states, inputs, models, datasets and open files. However their operations are interleaved, each gives bit by bit the '
     'results it gives on its own. None of them changes any of what they share.',
     ['schedules', 'histories'],
     'every pair (and triple) of kinds of users and every interleaving of their operations',
     'Tests exercise one object at a time, with fresh objects, so neither aliasing of what users were given nor state kept in classes or modules shows.',
     [('Simulator', S + ':Simulator'), ('JointEstimator', JO + ':JointEstimator'), ('DualEstimator', DU + ':DualEstimator'), ('UnscentedKalmanFilter', UK + ':UnscentedKalmanFilter'),
      ('MeanSquaredLoss', LO + ':MeanSquaredLoss'), ('ScipyMinimizer', SC + ':ScipyMinimizer'), ('run', IF + ':run_online_estimate'), ('HDF5Writer', H5 + ':HDF5Writer'),
      ('reader', H5 + ':read_state_estimates'), ('extractors', EX + ':OCVExtractor'), ('TheveninModel', TH + ':TheveninModel')])

prop('C32', 'The record of a simulation is explained by the values it was simulated with',
     'The rows of a simulated and exported cell, in memory or from a file, lead to the same voltages when they are simulated again, '
     'and their loss is zero for the true values and the mean squared difference between the voltages for those of another cell. Estimators of a circuit that is linear in '
     'what they estimate, started at the truth, stay there at every row and store it. From a full charge, extractors recover the '
     'capacity and the open circuit voltage plus the drop over the resistance, which explain the charge.',
     ['inputs', 'histories', 'configurations'],
     'every circuit shape, current behaviour, form of the record and sequence of inputs up to a depth; every charging rate, curve and grid in the alphabet',
     'Tests check each part on its own data; that the conventions of simulation, export, loss, estimation, storage and extraction (units, signs, names, first row) agree is only visible in the chain.',
     [('to_batdata', S + ':Simulator.to_batdata'), ('row_to_inputs', IF + ':row_to_inputs'), ('loss', LO + ':MeanSquaredLoss.__call__'), ('run', IF + ':run_online_estimate'),
      ('writer', H5 + ':HDF5Writer.append_step'), ('extractors', EX + ':OCVExtractor.interpolate_ocv')])

if __name__ == '__main__':
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(path, 'w') as fp:
        for p in P:
            assert p['statement'].count('. ') <= 3, p['id']
            fp.write(json.dumps(p) + '\n')
    print(len(P))
