"""Source of properties.jsonl (run: python3 tools/make_properties.py).  One P(...) per property."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
ROWS = []


def P(id, title, statement, over, qtext, why, files, mech, observe=()):
    assert len(title) <= 80, (id, len(title))
    ROWS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                     why_tests_cant=why,
                     anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                                  observe_at=list(observe), hook_needed=None)))


ECM = 'moirae/models/ecm/__init__.py'
COMP = 'moirae/models/ecm/components.py'
UT = 'moirae/models/ecm/utils.py'
ASOH = 'moirae/models/ecm/advancedSOH.py'
TR = 'moirae/models/ecm/transient.py'
BASE = 'moirae/models/base.py'
UKF = 'moirae/estimators/online/filters/kalman/unscented.py'
KUT = 'moirae/estimators/online/filters/kalman/utils.py'
CONV = 'moirae/estimators/online/filters/conversions.py'
DIST = 'moirae/estimators/online/filters/distributions.py'
FB = 'moirae/estimators/online/filters/base.py'
MW = 'moirae/estimators/online/utils/model.py'
JE = 'moirae/estimators/online/joint.py'
DE = 'moirae/estimators/online/dual.py'
OE = 'moirae/estimators/online/__init__.py'
SIM = 'moirae/simulator.py'
IF = 'moirae/interface/__init__.py'
H5 = 'moirae/interface/hdf5.py'
LOSS = 'moirae/estimators/offline/loss.py'
SCI = 'moirae/estimators/offline/scipy.py'
EXT = 'moirae/extractors/ecm.py'
THV = 'moirae/models/thevenin/__init__.py'
THC = 'moirae/models/thevenin/components.py'
THS = 'moirae/models/thevenin/state.py'

# ------------------------------------------------------------------ equivalent circuit physics
P('C01', 'Equivalent-circuit step counts charge exactly',
  'Over one step of the equivalent circuit model, the state of charge changes by exactly the charge passed divided by '
  'the capacity (the previous current held over the step in constant mode, the mean of the two end currents in linear '
  'mode), multiplied by the Coulombic efficiency when the cell is being charged and by one when it is discharged. The '
  'charge on the series capacitor, where there is one, changes by the charge passed with no efficiency applied, and '
  'every other state or parameter has no influence on either. Cutting a step in two at any instant, with the current '
  'the model assumes at that instant, gives the same final charge as the single step.',
  ['inputs', 'histories', 'configurations'],
  'all currents of either sign or zero, step lengths including zero, capacities, efficiencies, starting charges; both current modes; with and without series capacitor',
  'tests run a few fixed currents with unit or one fixed efficiency and compare at a handful of times',
  [ECM, COMP], [('SOC and q0 update', ECM + ':update_transient_state'), ('capacity in coulombs', COMP + ':MaxTheoreticalCapacity.value')],
  ['EquivalentCircuitModel.update_transient_state(...).soc / .q0'])

P('C02', 'RC branch currents follow the exact first-order response',
  'Each RC branch current after a step is the exact solution of tau di/dt = I(t) - i over the step: in constant mode '
  'with I(t) equal to the newly applied current, in linear mode with I(t) the straight line between the two end '
  'currents. Each branch uses only its own resistance and capacitance, evaluated at the state of charge and '
  'temperature at the start of the step. In constant mode the branch current therefore never leaves the interval '
  'between its old value and the applied current.',
  ['inputs', 'configurations'],
  'all currents, step lengths including zero, branch currents, resistances, capacitances, temperatures; 0 to 3 branches; both current modes',
  'tests check one RC element from rest under one constant current',
  [ECM, COMP], [('RC update', ECM + ':update_transient_state'), ('time constant', COMP + ':RCComponent.time_constant')],
  ['EquivalentCircuitModel.update_transient_state(...).i_rc'])

P('C03', 'Hysteresis relaxes monotonically toward its signed limit',
  'Over a step during which the current does not reverse, the hysteresis voltage moves from its old value toward the '
  'maximum hysteresis at the starting state of charge (positive when charging, negative when discharging) by exactly '
  'the fraction 1 - exp(-gamma * efficiency * |charge passed| / capacity). It never overshoots that limit and stays '
  'exactly where it was when no current flows. In linear mode, when the current reverses inside the step, the result '
  'is that of the two parts on either side of the reversal taken one after the other.',
  ['inputs', 'histories', 'configurations'],
  'all currents including zero at either end and reversals, rates, limits, capacities, efficiencies, step lengths including zero; both current modes',
  'tests drive one square or sinusoidal profile; a current that ends at exactly zero, or one part of a reversal, is not compared against the law',
  [ECM, UT], [('hysteresis step', ECM + ':update_transient_state'), ('closed form', UT + ':hysteresis_solver_const_sign')],
  ['EquivalentCircuitModel.update_transient_state(...).hyst'])

P('C04', 'Terminal voltage is the sum of the circuit elements',
  'The terminal voltage equals the open circuit voltage at the present state of charge and temperature plus current '
  'times series resistance, plus capacitor charge over series capacitance, plus each RC branch current times its own '
  'resistance, plus the hysteresis voltage, each parameter taken at the present state of charge (and temperature where '
  'it depends on one). An element the circuit does not have contributes nothing.',
  ['inputs', 'configurations'],
  'all states, currents, temperatures or none, and parameter values; 0 to 3 RC branches; with and without series capacitor; constant and SOC-dependent parameters',
  'tests compare a few template circuits at a few states',
  [ECM, COMP], [('voltage assembly', ECM + ':calculate_terminal_voltage'), ('OCV with entropic term', COMP + ':OpenCircuitVoltage.get_value')],
  ['EquivalentCircuitModel.calculate_terminal_voltage(...).terminal_voltage'])

P('C05', 'A batched circuit evaluation equals evaluating each member alone',
  'Evaluating the equivalent circuit model on a batch, whether the batch comes from the states, from any one health '
  'parameter or from several of them together, gives for each member exactly the transient state and terminal voltage '
  'obtained by evaluating that member alone. A value that is not batched is shared by every member.',
  ['inputs', 'configurations'],
  'all numeric values; every choice of batched field(s) among states and health parameters; batch sizes 1 to 3; 0 to 2 RC branches; both current modes',
  'tests batch a few parameters of one template with one size',
  [ECM, COMP, UT], [('broadcasting in the step', ECM + ':update_transient_state'), ('broadcasting in the voltage', ECM + ':calculate_terminal_voltage'),
                    ('batched interpolation', UT + ':SOCInterpolatedHealth.get_value')],
  ['update_transient_state', 'calculate_terminal_voltage'])

P('C06', 'Evaluating the circuit model never changes its arguments',
  'Stepping the equivalent circuit model or computing its voltage leaves the inputs, the transient state and the health '
  'parameters it was given with the same numeric values, and calling it again with them gives the same answer. What it returns '
  'shares no storage with its arguments: writing into the result changes none of them.',
  ['inputs', 'histories', 'configurations'],
  'all numeric values; both current modes; with and without series capacitor, RC branches, temperature',
  'tests look at results only; an in-place update of a shared array shows only in a later call',
  [ECM, COMP, UT], [('copies before updating', ECM + ':update_transient_state'), ('accumulating OCV', COMP + ':OpenCircuitVoltage.get_value')],
  ['update_transient_state', 'calculate_terminal_voltage'])

P('C07', 'Health parameters interpolate over SOC and scale with temperature',
  'A SOC-dependent parameter takes its stored value at each stored SOC point (evenly spaced over 0 to 1 when none are '
  'given), lies on the straight line between neighbours under linear interpolation and extends the outermost segments beyond the ends; a '
  'single stored value applies at every SOC. The result always has one entry per member of the parameter batch, per '
  'member of the SOC batch and per SOC; SOCs with more than two axes are refused. A resistance is further multiplied by exp(-factor*(T - reference)) when a '
  'temperature and a nonzero factor are given, and capacity read in ampere-seconds is 3600 times that in ampere-hours, both ways.',
  ['inputs', 'configurations'],
  'all node values, node positions, SOC queries inside and outside the range, temperatures, factors; 1 to 4 nodes; parameter and SOC batches of 1 to 3',
  'tests use a few fixed node sets and query points',
  [UT, COMP], [('interpolation', UT + ':SOCInterpolatedHealth.get_value'), ('temperature factor', COMP + ':Resistance.get_value'), ('units', COMP + ':MaxTheoreticalCapacity')],
  ['get_value of each health component'])

P('C08', 'Theoretical energy integrates OCV over the SOC window',
  'The theoretical energy of a cell is its capacity in ampere-hours times the trapezoid-rule integral of the open circuit '
  'voltage at the requested temperature over the requested SOC window, for each member of a batch, whichever order the window limits '
  'are given in. It scales linearly with capacity and with OCV, and for a constant OCV equals capacity times OCV times the window width.',
  ['inputs', 'configurations'],
  'all OCV node values, entropic coefficients, temperatures, capacities; several windows in either order; batches 1 to 2',
  'tests check one template over two windows',
  [ASOH, COMP], [('energy integral', ASOH + ':get_theoretical_energy')], ['ECMASOH.get_theoretical_energy'])

# ------------------------------------------------------------------ parameter containers
P('C09', 'Writing health parameters as a vector and reading them back agree',
  'After writing a vector of values to a set of updatable health parameters, reading the same parameters back in the same order returns '
  'exactly that vector, batched or not, and every parameter not named keeps its value. A vector that is too short or '
  'too long, or a name that is not updatable anywhere along its path, is rejected.',
  ['inputs', 'configurations', 'histories'],
  'all values; names in any order, nested in submodels, tuples and dictionaries; scalars and lists of 1 to 3; batches 1 to 3, including writing over an already batched value',
  'tests write fixed numbers once into one fixture; repeated batched writes are not exercised',
  [BASE], [('vector write', BASE + ':HealthVariable.update_parameters'), ('vector read', BASE + ':HealthVariable.get_parameters')],
  ['HealthVariable.get_parameters', 'HealthVariable.update_parameters'])

P('C10', 'Copies and parts of health states are independent of each other',
  'A copy of a health or state container made with new values carries those values, leaves the original as it was, and '
  'shares nothing with it: later writes to either do not show in the other. The elements of a circuit built from '
  'a template are independent parameters: changing one RC branch leaves the others as they were.',
  ['inputs', 'histories', 'configurations'],
  'all values; copies of each container, nested or not, batched or not; templates with 1 to 3 RC branches',
  'tests never mutate one RC branch of a template or a copy and look at its siblings',
  [BASE, ASOH, TR], [('health copy', BASE + ':HealthVariable.make_copy'), ('state copy', BASE + ':GeneralContainer.make_copy'),
                     ('template', ASOH + ':ECMASOH.provide_template')],
  ['make_copy', 'provide_template'])

P('C11', 'State containers and their vector form are in one-to-one agreement',
  'Flattening a state, input or output container to a vector and loading it back reproduces every field, optional '
  'absent fields stay absent, and the entries appear in the order of the names the container reports. '
  'Fields that are not batched are repeated for every member of the batch.',
  ['inputs', 'configurations'],
  'all values; each container with and without optional fields, list fields of 0 to 3 entries, batches 1 to 3, any mix of batched fields',
  'tests flatten one fixture with fixed numbers',
  [BASE, TR], [('to vector', BASE + ':GeneralContainer.to_numpy'), ('from vector', BASE + ':GeneralContainer.from_numpy'), ('names', BASE + ':GeneralContainer.expand_names')],
  ['to_numpy', 'from_numpy', 'all_names'])

P('C12', 'Each reported parameter name denotes the value at its position',
  'The expanded names of the updatable health parameters have one entry for each entry of the parameter vector, and '
  'the entry at each position is the one obtained by following that name through the object. Exactly the parameters '
  'marked updatable along their whole path appear, in an order fixed by the object and not by the order of marking.',
  ['inputs', 'configurations', 'histories'],
  'all values; every subset of parameters marked updatable, in any marking order; nested, tuple and dictionary members; circuits with 0 to 2 RC branches',
  'tests check name lists of a few fixtures as literal strings',
  [BASE], [('names', BASE + ':HealthVariable.expand_names'), ('iteration', BASE + ':HealthVariable.iter_parameters'), ('marking', BASE + ':HealthVariable.mark_updatable')],
  ['updatable_names', 'expand_names', 'get_parameters'])

P('C13', 'Health and state containers survive a JSON round trip',
  'Serialising a health or state container to JSON and reading it back gives a container of the same type whose every '
  'field, batch and updatable mark is the same, so that it behaves identically in every model.',
  ['inputs', 'configurations', 'histories'],
  'all values; each container; before and after it has been evaluated; with explicit or default SOC points',
  'tests round trip one default object that has never been evaluated',
  [BASE, UT], [('array serialisation', BASE + ':_encode_ndarray'), ('SOC point serialisation', UT + ':SOCInterpolatedHealth')],
  ['model_dump_json', 'model_validate_json'])

# ------------------------------------------------------------------ filters
P('C14', 'Coordinate conversions invert and carry covariances consistently',
  'Converting samples to the other coordinate system and back returns the samples, for one point or a batch of points, for '
  'every invertible linear conversion, for the identity and, on nonnegative values, for the absolute value conversion; converting each point '
  'of a batch alone gives the same as converting the batch. A covariance converted forth and back is unchanged, and in either direction '
  'becomes the covariance of the converted variable to first order: symmetric, positive semidefinite, and unaffected by any offset. No conversion changes its arguments.',
  ['inputs', 'configurations'],
  'all scale factors (scalar, vector, full matrix), offsets, samples, covariances, pivots; dimensions 1 to 3',
  'tests check fixed matrices; cross terms and signs of non-diagonal maps are sampled, not decided',
  [CONV], [('linear map', CONV + ':LinearConversionOperator'), ('absolute value map', CONV + ':AbsoluteValueConversionOperator')],
  ['transform_samples', 'inverse_transform_samples', 'transform_covariance', 'inverse_transform_covariance'])

P('C15', 'Distributions convert and combine without losing or sharing anything',
  'Converting a distribution converts its mean as a point and its covariance as a covariance, and converting back gives '
  'the original; combining independent distributions concatenates their means in order and places their covariances '
  'in that order on the diagonal with zeros elsewhere. Neither operation changes its operands, and the mean and covariance a distribution hands '
  'out can be written to without changing it. A mean that is no vector, or a covariance that is no square matrix of the size of the mean, is refused, when it is made and when it is set later.',
  ['inputs', 'configurations'],
  'all means, covariances, conversions; dimensions 1 to 3; 1 to 3 distributions combined; Gaussian and Delta',
  'tests check fixed examples and never mutate what they are handed',
  [DIST], [('combine', DIST + ':MultivariateGaussian.combine_with'), ('convert', DIST + ':MultivariateGaussian.convert')],
  ['combine_with', 'convert', 'get_mean', 'get_covariance'])

P('C16', 'Sigma points reproduce the mean and covariance they came from',
  'For every admissible setting of the tuning parameters, the weighted mean and weighted covariance of the sigma points '
  'equal the mean of the augmented state (the estimate with zero-mean noises) and its block covariance of estimate, '
  'process noise and sensor noise. The mean weights sum to one and the points are symmetric about the mean.',
  ['inputs', 'configurations'],
  'all means, positive definite covariances and noises, alpha in [0.001,1], beta >= 0, kappa > -L or automatic; 1 to 3 states, 1 to 2 outputs',
  'tests check one or two tunings on one covariance numerically',
  [UKF], [('sigma points', UKF + ':build_sigma_points'), ('weights', UKF + ':mean_weights, cov_weights'), ('moments', UKF + ':assemble_unscented_estimate_from_samples')],
  ['build_sigma_points', 'mean_weights', 'cov_weights'])

P('C17', 'On a linear system the unscented filter is the Kalman filter',
  'For a system whose state update and measurement are linear (with any inputs), one step of the unscented filter gives exactly the Kalman '
  'filter posterior mean and covariance, and the predicted measurement and its covariance, for every tuning. '
  'The gain depends on covariances only, so a measurement equal to the prediction leaves the predicted mean as it is.',
  ['inputs', 'configurations'],
  'all system matrices, means, covariances, noises, inputs, measurements and tunings; 1 to 2 states, 1 to 2 outputs',
  'tests compare trends on one or two fixed linear systems with loose tolerance',
  [UKF, KUT], [('prediction', UKF + ':estimation_update'), ('correction', UKF + ':correction_update'), ('gain', KUT + ':calculate_gain_matrix')],
  ['UnscentedKalmanFilter.step'])

P('C18', 'The unscented step is the unscented transform for any model',
  'For an arbitrary model, one filter step propagates every sigma point from the previous to the new controls, adds that point\'s process noise, predicts '
  'its measurement from the propagated point and new controls, adds its sensor noise, and forms means, covariances, cross covariance, gain and '
  'posterior from exactly those values, whatever storage the model returns. Afterwards the filter holds the posterior and the new '
  'controls, what it returned is independent of its own state, and its arguments are unchanged. Later changes to the estimate, controls and noises it was made from do not reach it.',
  ['inputs', 'histories', 'configurations'],
  'all values a model may return at each sigma point (uninterpreted); models that return fresh arrays, views of their input or their input itself; 1 to 2 states, 1 to 2 outputs; one and two consecutive steps',
  'tests use models that always return fresh arrays and one or two trajectories',
  [UKF, KUT], [('prediction', UKF + ':estimation_update'), ('correction', UKF + ':correction_update'), ('step', UKF + ':step')],
  ['UnscentedKalmanFilter.step', '.hidden', '.controls'])

P('C19', 'Covariance repair returns a symmetric positive semidefinite matrix',
  'The covariance repair used by the filters returns a positive definite symmetric matrix unchanged and otherwise returns the nearest '
  'symmetric positive semidefinite matrix of the symmetric part: symmetric, no negative eigenvalue, unchanged if the '
  'input was already symmetric and positive semidefinite. It never writes into its argument, and its result shares no storage with it.',
  ['inputs'],
  'all symmetric or asymmetric, definite, indefinite or singular matrices of size 1 and 2',
  'tests call the repair on one matrix and compare to itself',
  [KUT], [('repair', KUT + ':enforce_positive_semi_defiteness'), ('check', KUT + ':ensure_positive_semi_definite')],
  ['ensure_positive_semi_definite'])

P('C20', 'Filter-side models equal the cell model under the coordinate change',
  'For each way of presenting a cell model to a filter (transients alone, health parameters alone, or both jointly), '
  'propagating hidden states and predicting measurements equals converting hidden states and controls to physical values, '
  'running the cell and degradation models on them, and converting the result back, row by row for every row of the batch. The health parameters '
  'and transients that are not part of the hidden state keep the values the wrapper was given, and nothing given to the wrapper is modified.',
  ['inputs', 'configurations'],
  'all hidden states, controls and parameters; any invertible linear conversion of hidden states, controls and outputs; any subset of updatable parameters; 1 to 3 rows; with and without a degradation model',
  'tests compare the wrapper with a simulator on one template without offsets',
  [MW, FB], [('transient wrapper', MW + ':CellModelWrapper'), ('joint wrapper', MW + ':JointCellModelWrapper'), ('health wrapper', MW + ':DegradationModelWrapper')],
  ['update_hidden_states', 'predict_measurement'])

P('C21', 'Joint estimates are reported in physical units under matching names',
  'Whatever coordinates the filter works in, the state a joint estimator exposes, the one each step returns and the containers it builds from it are '
  'the filter estimate converted to physical values, agree with each other, and match the reported state names entry by '
  'entry. Before any step they equal the initial transients and health parameters with the covariances supplied; parameters not estimated keep '
  'their initial values.',
  ['inputs', 'histories', 'configurations'],
  'all initial values, covariances, normalisations and filter posteriors; any set of updatable parameters; before and after a step',
  'tests read the state with normalisation only in examples where the factor is one or compare to the filter itself',
  [JE, OE, MW], [('state', JE + ':JointEstimator.state'), ('containers', JE + ':JointEstimator.get_estimated_state'), ('step', JE + ':JointEstimator.step'), ('init', JE + ':initialize_ukf_from_wrapper')],
  ['JointEstimator.state', '.step', '.get_estimated_state', '.state_names'])

P('C22', 'Dual estimates combine both filters in physical units under their names',
  'Whatever coordinates its two filters work in, the state a dual estimator exposes, the one each step returns and the containers it builds are the transient estimate followed by the health estimate, '
  'converted to physical values, with no cross covariance, matching the reported names. At each step the transient filter uses the previous '
  'health estimate and the health filter the previous transient estimate, both see the same inputs and measurement in their own coordinates, and parameters not '
  'estimated keep their initial values.',
  ['inputs', 'histories', 'configurations'],
  'all initial values, covariances, normalisations and posteriors; any set of updatable parameters; before and after one and two steps',
  'tests run short trajectories and check trends; the exposed state is not read',
  [DE, OE, MW], [('state', DE + ':DualEstimator.state'), ('exchange', DE + ':DualEstimator.step'), ('init', DE + ':initialize_ukf_from_wrappers')],
  ['DualEstimator.state', '.step', '.get_estimated_state', '.state_names'])

P('C23', 'Estimates do not depend on whether parameters are normalised',
  'Running an estimator with normalised health parameters gives, in physical units, exactly the same state estimates, covariances and predicted '
  'outputs as running it without normalisation on the same data. Noise covariances are supplied and interpreted in physical units in both cases, and a noise given for only the transients or only the health applies to them.',
  ['inputs', 'histories', 'configurations'],
  'all nonzero and zero parameter values used as normaliser, means, covariances, noises, measurements; joint and dual; one step from an arbitrary estimate',
  'tests compare normalised and raw runs on one trajectory with a tolerance of a few percent',
  [JE, DE, CONV], [('normaliser', JE + ':initialize_unscented_kalman_filter'), ('noise conversion', JE + ':initialize_ukf_from_wrapper'), ('normaliser', DE + ':initialize_unscented_kalman_filter')],
  ['JointEstimator.step', 'DualEstimator.step'])

# ------------------------------------------------------------------ simulator, interface
P('C24', 'A simulation is the model iterated, and its history is what happened',
  'Stepping a simulator through a sequence of inputs gives exactly the states and outputs of applying the cell model '
  'repeatedly from the initial state, with each step using the previous input and the health parameters as degraded so far. With history kept, '
  'entry k of each history is the input, state, health and output at step k, entry 0 the initial ones, and running step by step or all at once is the same. '
  'Objects passed in are not modified, and changing them (or what a step returned, when no history is kept) later does not change the simulation.',
  ['inputs', 'histories', 'configurations'],
  'all input sequences of up to 3 steps and values for an arbitrary (uninterpreted) cell and degradation model; with and without history',
  'tests run fixed profiles and compare lengths and a few values',
  [SIM], [('step', SIM + ':Simulator.step'), ('evolve', SIM + ':Simulator.evolve')], ['Simulator.step', 'Simulator.evolve', '*_history'])

P('C25', 'Exported simulation tables label each row with its own member and time',
  'In the table exported from a simulation of a batch, each row carries the member number and the inputs, states and '
  'outputs of that same member at one step, under the names the containers report, with every member at every step present once and in time order within a member. The per-member datasets are the rows '
  'of that member alone, in time order.',
  ['inputs', 'configurations', 'histories'],
  'all values; batches of 1 to 3; 1 to 3 steps; batched in inputs, states or parameters',
  'tests count rows of a batched table or check a single cell',
  [SIM], [('table', SIM + ':Simulator.to_dataframe'), ('datasets', SIM + ':Simulator.to_batdata')], ['to_dataframe', 'to_batdata'])

P('C26', 'Online estimation uses every record once and reports it on its own row',
  'Running an online estimator over a dataset feeds it the records in order, each exactly once, with the previous record (the '
  'first record itself at the start) as previous input, and the output table has one row per record whose values are the estimate after that record. Columns named '
  'std hold the standard deviations, the square roots of the covariance diagonal, of the columns they are named after.',
  ['inputs', 'histories', 'configurations'],
  'all record values and posteriors of an arbitrary (uninterpreted) estimator; datasets of 1 to 4 records; any row index; with and without file output',
  'tests check the shape of the table and that the last value is close to the truth',
  [IF], [('loop', IF + ':run_online_estimate')], ['run_online_estimate'])

P('C27', 'Records are read as the inputs and outputs they state',
  'A record becomes inputs with its time, current and temperature and an output with its voltage, unchanged in sign and scale; when the temperature is '
  'missing or not a finite number, the stated default is used and nothing else changes.',
  ['inputs', 'configurations'],
  'all finite values; temperature present, absent, or NaN/infinite; any default',
  'tests check one row with and without temperature',
  [IF], [('conversion', IF + ':row_to_inputs')], ['row_to_inputs'])

P('C28', 'Estimates written to file are the estimates read back',
  'Reading the file written during an estimation, also one that an error ended, yields, in order, the time and the state and output distributions of every step appended, with '
  'the content the write setting promises (full, mean and covariance, mean and variance, mean); the per-cycle '
  'stream yields exactly the first step of each cycle that occurred, in increasing cycle order, whatever the cycle numbers are. The stored names are those of the estimator.',
  ['inputs', 'histories', 'configurations'],
  'all means, covariances and times; every nondecreasing cycle numbering of up to 4 steps starting anywhere, with gaps; each write setting; resizable or not',
  'tests write cycles 0 and 1 only and check the first and last values',
  [H5], [('append', H5 + ':HDF5Writer.append_step'), ('prepare', H5 + ':HDF5Writer.prepare'), ('read', H5 + ':read_state_estimates')],
  ['HDF5Writer.append_step', 'read_state_estimates'])

# ------------------------------------------------------------------ offline, extractors, degradation, thevenin
P('C29', 'The squared-error loss is the mean squared misfit of each candidate',
  'The loss of a candidate parameter vector is the mean over all records and outputs of the squared difference between the '
  'recorded output and that predicted by the cell model started from the candidate state and health with the recorded inputs; a batch of candidates '
  'gives each candidate\'s own loss. The starting vector decodes back to the initial guess, and evaluating the loss changes neither the guess nor the data.',
  ['inputs', 'configurations'],
  'all records (1 to 3), candidates, and predictions of an arbitrary cell model; 0 to 2 estimated parameters; batches of 1 to 3',
  'tests evaluate the loss at the true and one wrong parameter set, one at a time',
  [LOSS], [('loss', LOSS + ':MeanSquaredLoss.__call__'), ('start vector', LOSS + ':BaseLoss.get_x0')], ['MeanSquaredLoss.__call__', 'get_x0'])

P('C30', 'The offline fit minimises the given loss and decodes its own optimum',
  'The function handed to the optimiser is a positive multiple of the loss that does not change during the fit, so that its minimisers are those of the loss; the optimiser starts at the '
  'initial guess and gets the user\'s options. The returned state and health are the initial guess with exactly the entries of '
  'the optimiser\'s solution in place, and the initial guess is not modified.',
  ['inputs', 'configurations'],
  'all loss values (any sign or zero), candidate points and optimiser results (uninterpreted optimiser); 0 to 2 estimated parameters',
  'tests run one optimiser on one dataset',
  [SCI, LOSS], [('fit', SCI + ':ScipyMinimizer.estimate')], ['ScipyMinimizer.estimate'])

P('C31', 'Degradation acts once per step on the state it is given',
  'With a degradation model, each simulation step uses the health left by the previous step and then degrades it exactly once from that '
  'step\'s inputs, states and outputs; without one, the health never changes and the copies handed out are independent of it.',
  ['inputs', 'histories', 'configurations'],
  'all values; arbitrary (uninterpreted) degradation model; 1 to 3 steps; simulator and both estimator wrappers',
  'tests use no degradation or one fixed linear fade',
  [SIM, 'moirae/models/utils.py', MW], [('degrade', SIM + ':Simulator.step'), ('no degradation', 'moirae/models/utils.py:NoDegradation'), ('wrappers', MW)],
  ['Simulator.asoh', 'update_hidden_states'])

P('C32', 'Extracted capacity and OCV do not depend on how the data are arranged',
  'The extracted capacity is the largest charge capacity of any cycle. The extracted open circuit voltage fits each voltage at the state of charge of its own '
  'record (capacity passed over the assumed capacity) with a weight inversely proportional to its own current magnitude, floored, '
  'and does not depend on the order of the records; the result is tabulated at the requested points, and the dataset is not changed. Data without records, or that do not sample enough of the capacity, are rejected.',
  ['inputs', 'configurations'],
  'all capacities, voltages, currents and record orders of up to 4 records, for an arbitrary (uninterpreted) spline fitter',
  'tests run one synthetic cycle sorted in time',
  [EXT], [('capacity', EXT + ':MaxCapacityExtractor.extract'), ('OCV', EXT + ':OCVExtractor.interpolate_ocv')], ['extract', 'interpolate_ocv', 'check_data'])

P('C33', 'The external circuit solver is driven with each member\'s own values',
  'For each member of a batch, the external circuit solver is built with that member\'s own parameters, initial state and environment, is '
  'run for the time between the two inputs at the new current with the solver\'s sign convention, and its final values are '
  'returned as that member\'s new state. The terminal voltage is the open circuit voltage plus current times series resistance minus the sum of overpotentials, and '
  'parameters follow their polynomials in SOC and temperature for each member.',
  ['inputs', 'configurations'],
  'all parameter, state and input values; batches 1 to 3 in any of them (the previous inputs no larger than the rest); 0 to 2 RC pairs; the solver itself uninterpreted',
  'tests need the optional solver package and are skipped without it',
  [THV, THC, THS], [('driver', THV + ':TheveninModel.update_transient_state'), ('polynomials', THC)], ['TheveninModel.update_transient_state', 'calculate_terminal_voltage'])

P('C34', 'Values given in any form are held as one row per member of the batch',
  'A scalar parameter given as a number, a 0-d array, a list, a vector, a row or a column is held as one value per member, a list parameter as one row per '
  'member, whether given when the object is made or set by name, and the object does not keep hold of the array it was given. '
  'Setting a value by name changes that value alone. Values of different (non-unit) batch sizes are refused, a table given for a scalar is refused, and the reported batch size and number '
  'of updatable values are those of the values held.',
  ['inputs', 'configurations'],
  'all values; every form listed; health variables with nested, tuple and dictionary members, circuits, states, inputs and outputs; batches 1 to 3 in any field',
  'tests build each container in one form and never mix batch sizes across nested members',
  [BASE], [('shapes', BASE + ':enforce_dimensions'), ('by name', BASE + ':HealthVariable.set_value'), ('batch size', BASE + ':HealthVariable.batch_size'),
           ('batch size of states', BASE + ':GeneralContainer.batch_size')], ['set_value', 'batch_size', 'num_updatable'])

P('C35', 'Estimators and simulators own what they were started from',
  'Once an estimator or a simulator has been made, nothing done to the objects it was made from (health, transient state, inputs, covariances, noises, tuning '
  'parameters) changes its state or what it does next. Estimators or simulators made from the same objects do not influence each other and leave those objects as they were.',
  ['histories', 'inputs', 'configurations'],
  'all values; joint and dual estimators, normalised or not, 1 to 3 transients and 0 to 4 estimated parameters; simulators with and without history; objects overwritten in '
  'place, by assignment or through their own methods',
  'tests build one estimator from fresh objects and never touch these again',
  [MW, OE, FB, UKF, JE, DE, SIM], [('model wrapper', MW + ':BaseCellWrapper.__init__'), ('estimator', OE + ':OnlineEstimator.__init__'),
                               ('filter', FB + ':BaseFilter.__init__'), ('noises', UKF + ':UnscentedKalmanFilter.__init__'), ('simulator', SIM + ':Simulator.__init__')],
  ['state', 'get_estimated_state', 'step'])

P('C36', 'Template circuits have the elements asked for, and their states fit them',
  'A circuit made from a template has exactly the number of RC branches asked for and a series capacitor if asked for, each holding the values given for it; a missing series '
  'capacitance is chosen so that a full charge moves the voltage by 10 mV. A state made for a circuit has one current per branch and a capacitor charge exactly if '
  'the circuit has one, is empty unless said otherwise, and keeps that layout through every step. Values for another number of branches are refused. What is left out of a circuit or of its '
  'inputs is absent or neutral (no branches, no series capacitor, efficiency 1, no hysteresis, no temperature dependence, zero current at time zero) and not shared between circuits.',
  ['inputs', 'configurations'],
  'all values; 0 to 4 RC branches; with and without series capacitor; every combination of given and default values; both current modes',
  'tests use two or three fixed templates',
  [ASOH, TR, ECM], [('circuit template', ASOH + ':ECMASOH.provide_template'), ('state template', TR + ':ECMTransientVector.provide_template'),
               ('state for a circuit', TR + ':ECMTransientVector.from_asoh')], ['provide_template', 'from_asoh', 'update_transient_state'])

P('C37', 'The circuit depends on elapsed time only, however a steady step is divided',
  'Shifting the clock of both ends of a step changes nothing in the state after it, and the voltage does not depend on the time it is read. Under a steady current (and '
  'parameters that do not depend on the state of charge), making a step in parts leaves the same state as making it at once; charges and branch currents also under a linear ramp of one sign. At rest the '
  'charge and the hysteresis stay and the branch currents decay.',
  ['inputs', 'histories', 'configurations'],
  'all currents, step lengths, clock offsets, states and parameters; 2 or 3 parts, possibly of no duration; 0 to 2 RC branches; both current modes',
  'tests compare single steps with stored numbers',
  [ECM, UT], [('step', ECM + ':EquivalentCircuitModel.update_transient_state'), ('hysteresis', UT + ':hysteresis_solver_const_sign')], ['update_transient_state'])

P('C38', 'Data exported from a simulation tell estimators what the simulator did',
  'For each member of a simulation, the squared-error loss on its exported dataset is zero at the state and health it was simulated with and nowhere lower, and an online '
  'estimation on the dataset steps its filters with exactly the inputs and outputs of that member, in order, each once, the previous inputs being those of the record before.',
  ['inputs', 'histories', 'configurations'],
  'all values; simulations of 0 to 3 steps and 1 to 3 members, batched in inputs, states or health; joint and dual estimators; arbitrary cell model',
  'tests fit and track one dataset within tolerances that hide a misplaced record',
  [SIM, IF, LOSS, JE, DE], [('export', SIM + ':Simulator.to_batdata'), ('reading', IF + ':row_to_inputs'), ('loss', LOSS + ':MeanSquaredLoss.__call__'),
                            ('online run', IF + ':run_online_estimate')], ['to_batdata', 'MeanSquaredLoss', 'run_online_estimate'])

P('C39', 'Filters work with the noises, tuning and inputs the user gave',
  'Every filter of an estimator uses the process and sensor noise the user gave, converted as covariances from physical units to the coordinates of that filter, the tuning parameters given '
  'for that filter, and the initial inputs with their uncertainty. What is not given at all takes the documented default (noises of 1e-8 times the identity in filter coordinates; alpha 1, beta 2, '
  'kappa 0). Inputs set later (set_inputs), before a step, replace the controls of every filter, in its own coordinates, without stepping it or changing its estimate. What the caller passes in '
  'is left as it was.',
  ['inputs', 'histories', 'configurations'],
  'all noises, estimates and inputs; joint and dual estimators; identity, scaled, shifted, affine and matrix coordinates; any subset of the options given',
  'tests check noises of estimators whose coordinates are scaled by plain factors, and compare results within tolerances that hide a wrong small noise',
  [JE, DE, UKF, FB], [('joint filter', JE + ':JointEstimator.initialize_unscented_kalman_filter'), ('dual filters', DE + ':DualEstimator.initialize_unscented_kalman_filter'),
                      ('filter', UKF + ':UnscentedKalmanFilter.__init__')], ['cov_w', 'cov_v', 'mean_weights', 'cov_weights', 'hidden', 'controls'])

if __name__ == '__main__':
    with open(OUT, 'w') as f:
        for r in ROWS:
            f.write(json.dumps(r) + '\n')
    print(len(ROWS), 'properties')
