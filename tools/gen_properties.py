#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=['pymcmcstat/' + f for f in files],
                               mechanism=[dict(name=n, where='pymcmcstat/' + w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))

p('C01', 'Every sampled state respects the parameter limits',
  'Every row of the chain produced by a simulation lies, component by component, inside the closed limits the user declared for the sampled parameters, whatever the proposal, sampling method (Metropolis, adaptive, delayed rejection, or both) or limits (finite, one-sided or infinite). '
  'The model and the prior are never evaluated at a proposed point outside those limits. '
  'A simulation whose limits are incompatible (minimum above maximum) or whose initial value is outside its limits is refused with an error before any sampling.',
  ['inputs', 'configurations', 'histories'],
  'all parameter vectors, limits, proposal matrices, methods, numbers of delayed-rejection stages and random draws',
  'Tests check a few fixed vectors against one pair of limits; the guarantee is over every proposal drawn at every step of every run, including vectors that violate only one component and delayed-rejection stages.',
  ['samplers/utilities.py', 'samplers/Metropolis.py', 'samplers/DelayedRejection.py', 'settings/ModelParameters.py', 'MCMC.py'],
  [('is_sample_outside_bounds', 'samplers/utilities.py'), ('bounds branch of run_metropolis_step', 'samplers/Metropolis.py'), ('bounds branch of run_delayed_rejection', 'samplers/DelayedRejection.py'), ('_check_parameter_limits / _check_initial_values_wrt_parameter_limits', 'settings/ModelParameters.py')],
  ['results chain', 'arguments seen by the model'])

p('C02', 'A Metropolis step implements the posterior-ratio acceptance rule',
  'A Metropolis step proposes the current point plus a Gaussian increment whose shape is the current proposal matrix, and accepts an in-limits proposal exactly when the log of one uniform draw is below the log posterior ratio, that is minus one half of (sum over error groups of sum-of-squares / error variance, plus the prior penalty) at the proposal minus the same quantity at the current point. '
  'A proposal whose posterior is not a number or zero is never accepted from a valid current point. '
  'The accepted or rejected candidate carries the sum-of-squares, prior and error variance that were used to judge it.',
  ['inputs', 'configurations'],
  'all current points, proposal matrices, sums of squares (any number of groups, including infinite and NaN values), priors, error variances and draws',
  'Tests mock the random draw and check one or two scalar values; they never vary the number of error groups, the prior and the error variances together, nor non-finite sums of squares.',
  ['samplers/Metropolis.py', 'samplers/utilities.py'],
  [('run_metropolis_step', 'samplers/Metropolis.py'), ('sample_candidate_from_gaussian_proposal', 'samplers/utilities.py'), ('calculate_log_posterior_ratio', 'samplers/utilities.py'), ('log_posterior_ratio_acceptance_test', 'samplers/utilities.py')])

p('C03', 'Delayed rejection uses the n-stage acceptance probability',
  'After a rejected first proposal, delayed rejection tries further proposals from the current point, each from its own stage proposal matrix, until one is accepted or the number of tries is used up; stage i is accepted with the Green-Mira probability: the posterior ratio times the ratio of the earlier-stage Gaussian proposal densities times the products of the rejection probabilities of the reversed and the forward path, capped at one. '
  'Proposals outside the limits or with a posterior that is not a number are never accepted. '
  'If no stage accepts, the current point is kept unchanged.',
  ['inputs', 'configurations', 'histories'],
  'all paths of tried points (any number of stages, in or out of limits), all sums of squares, priors, error variances and stage matrices',
  'Tests exercise a two-stage path with hand-picked numbers; the recursion over three or more stages, the out-of-limits stages and non-finite posteriors are not reached.',
  ['samplers/DelayedRejection.py', 'samplers/utilities.py'],
  [('run_delayed_rejection', 'samplers/DelayedRejection.py'), ('alphafun', 'samplers/DelayedRejection.py'), ('nth_stage_log_proposal_ratio', 'samplers/DelayedRejection.py'), ('posterior_ratio_acceptance_test', 'samplers/utilities.py')])

p('C04', 'Chains are a faithful, aligned record of the simulated history',
  'Row k of the parameter chain is the accepted candidate of step k if that step accepted and row k-1 otherwise; row k of the sum-of-squares chain is the sum of squares of the parameters in row k; row k of the error-variance chain is the error variance drawn at step k from that sum of squares and used in step k+1; row 0 is the initial point. '
  'The reported rejection counts equal the number of steps that did not accept, and the number of those whose last proposal was outside the limits.',
  ['inputs', 'histories', 'configurations'],
  'all sequences of accept/reject outcomes and draws, any chain length, any number of parameters and error groups, with or without error-variance updating, delayed rejection and adaptation',
  'Tests check shapes and a single update; alignment of three chains over every interleaving of accept, reject and out-of-limits outcomes is not checked.',
  ['MCMC.py', 'structures/ResultsStructure.py'],
  [('__execute_simulator', 'MCMC.py'), ('__update_chain', 'MCMC.py'), ('__update_rejected', 'MCMC.py'), ('__initialize_chains', 'MCMC.py')],
  ['results chain, sschain, s2chain, total_rejected, rejected_outside_bounds'])

p('C05', 'Only sampled parameters vary and the model sees the right vector',
  'Every evaluation of the sum-of-squares or model function during a simulation receives the full parameter vector in declaration order, where sampled entries equal the proposed point and parameters declared as not sampled keep their declared initial value. '
  'The chain has exactly one column per sampled parameter, in declaration order, and names, limits, priors and proposal entries refer to the same parameters; a parameter declared with only a name and a value is sampled, unbounded, and has a flat prior. '
  'With custom samplers, the outputs the user function returns are stored and handed on unchanged.',
  ['inputs', 'configurations'],
  'all numbers of parameters, all patterns of sampled / non-sampled / adapted / non-adapted flags, all values',
  'Tests use one fixed three-parameter pattern.',
  ['settings/ModelParameters.py', 'procedures/SumOfSquares.py', 'MCMC.py', 'structures/ResultsStructure.py'],
  [('_openparameterstructure', 'settings/ModelParameters.py'), ('setup_adaptation_indices', 'settings/ModelParameters.py'), ('evaluate_sos_function', 'procedures/SumOfSquares.py')],
  ['arguments seen by the model', 'results names, limits'])

p('C06', 'Adaptation statistics are the exact moments of the history',
  'The running mean, covariance and weight kept by adaptation equal the (weighted, unbiased) sample mean, covariance and total weight of all chain rows consumed so far, combined with any initial mean, covariance and weight the user supplied. '
  'The result does not depend on how the history was cut into adaptation intervals, every row is consumed exactly once, and an empty batch changes nothing.',
  ['inputs', 'histories'],
  'all chains, weights, initial statistics and adaptation intervals, any number of rows and parameters',
  'Tests compare a handful of numbers for one small batch; exactness for every batch length and every way to cut the history is an unbounded statement.',
  ['samplers/Adaptation.py', 'procedures/CovarianceProcedures.py'],
  [('update_covariance_mean_sum', 'samplers/Adaptation.py'), ('initialize_covariance_mean_sum', 'samplers/Adaptation.py'), ('run_adaptation', 'samplers/Adaptation.py'), ('_update_covariance_settings', 'procedures/CovarianceProcedures.py')],
  ['results cov, mean'])

p('C07', 'Proposal matrices always match the proposal covariance',
  'At start-up the proposal matrix R satisfies R^T R = the user covariance restricted to the sampled parameters (or the default built from prior widths and 5% of the initial values); after an adaptation R^T R = scale^2 times the adapted covariance, with rows and columns of non-adapted parameters taken from the original covariance, a small diagonal term is added only if that matrix is not positive definite, and the previous matrix is kept if it still is not. '
  'Delayed-rejection stage matrices are the first one divided by the successive stage factors, and each stored inverse is the inverse of its stage matrix. '
  'The matrix used to draw a step is the one the latest adaptation produced.',
  ['inputs', 'configurations', 'histories'],
  'all covariances, scales, stage factors, numbers of tries, adapt flags and dimensions, including singular covariances',
  'Tests check fixed 2x2 or 3x3 matrices; mixtures of non-adapted parameters, singular matrices and more tries than factors are not covered.',
  ['procedures/CovarianceProcedures.py', 'samplers/Adaptation.py'],
  [('setup_covariance_matrix / __setup_R_matrix / __setup_RDR_matrix', 'procedures/CovarianceProcedures.py'), ('check_for_singular_cov_matrix / adjust_cov_matrix / update_cov_from_covchain / update_delayed_rejection / below_burnin_threshold', 'samplers/Adaptation.py')],
  ['results R, RDR, qcov, qcov_scale'])

p('C08', 'Error variances follow the conjugate inverse-gamma update',
  'With error-variance updating on, each error group j gets at every step 1/g with g drawn from a gamma distribution of shape (N0_j + N_j)/2 and scale 2/(N0_j*S20_j + SS_j), where SS_j is the sum of squares of the current point, using the numbers of observations and the prior settings of that same group. '
  'The prior settings S20, N0 and the observation counts are never changed by the simulation.',
  ['inputs', 'histories', 'configurations'],
  'all numbers of error groups, observation counts, prior settings and sums of squares, any number of updates',
  'Tests check one update of one group with a mocked gamma draw; that settings survive any number of updates is a history property.',
  ['procedures/ErrorVarianceEstimator.py', 'settings/ModelSettings.py', 'MCMC.py'],
  [('update_error_variance', 'procedures/ErrorVarianceEstimator.py'), ('_check_dependent_model_settings', 'settings/ModelSettings.py')],
  ['results s2chain, model_settings'])

p('C09', 'The gamma generator is the Marsaglia-Tsang rejection sampler',
  'A gamma variate of shape a >= 1 and scale b is b*d*v with d = a - 1/3, v = (1 + x/sqrt(9d))^3 > 0 for a normal draw x, returned only if an independent uniform u satisfies u < 1 - 0.0331 x^4 or log u < x^2/2 + d(1 - v + log v); for 0 < a < 1 a variate of shape a+1 is multiplied by u^(1/a); for a <= 0 the result is zero. '
  'Every returned variate with positive shape and scale is non-negative, and an array request fills every entry with its own independent draw.',
  ['inputs', 'schedules'],
  'all shapes, scales, array sizes and all sequences of normal and uniform draws',
  'Tests check the type and shape of a few results; the acceptance region for all draws cannot be sampled.',
  ['procedures/ErrorVarianceEstimator.py'],
  [('gammar / gammar_mt / _gammar_mt1', 'procedures/ErrorVarianceEstimator.py')])

p('C10', 'Priors are set up and evaluated as documented',
  'The default prior contribution is the sum over sampled parameters of ((mu - theta)/sigma)^2, an infinite sigma contributes zero, a prior sigma of zero or less means an infinite sigma, and a NaN prior mean means the initial value of that parameter. '
  'A user prior function receives the proposed point with the means and sigmas of exactly the sampled parameters, in the same order, and its value is used unchanged.',
  ['inputs', 'configurations'],
  'all numbers of parameters, prior means (finite or NaN), sigmas (any sign, infinite), sampled patterns and proposals',
  'Tests check two or three literal values for single parameters.',
  ['procedures/PriorFunction.py', 'settings/ModelParameters.py', 'MCMC.py'],
  [('default_priorfun / evaluate_prior', 'procedures/PriorFunction.py'), ('setup_prior_mu / setup_prior_sigma / _check_prior_sigma', 'settings/ModelParameters.py')],
  ['results prior'])

p('C11', 'Default sum of squares and data bookkeeping are exact',
  'Without a user sum-of-squares function, group b gets the sum over its observations of weight_b * (observed - model)^2, with the model called on the x-data of that batch and the full parameter vector; data added batch by batch keep their order, values, weights and extra objects, one-dimensional data become a column, and the number of observations of a batch is its number of rows unless a count is given. '
  'A scalar returned by a user sum-of-squares function is treated as one group.',
  ['inputs', 'configurations'],
  'all numbers and sizes of batches, data values, weights and model functions',
  'Tests use one batch of fixed data.',
  ['procedures/SumOfSquares.py', 'settings/DataStructure.py'],
  [('evaluate_sos_function / mcmc_sos_function', 'procedures/SumOfSquares.py'), ('add_data_set / get_number_of_batches / get_number_of_data_sets / get_number_of_observations', 'settings/DataStructure.py')])

p('C12', 'Options and settings are normalised consistently before sampling',
  'Plain Metropolis and plain delayed rejection never adapt, the non-delayed methods default to one try and the delayed ones to two, explicit user choices win otherwise, and a save size outside 1..nsimu becomes nsimu; adaptation happens exactly at the multiples of the adaptation interval (100 by default) and not after the last adaptation step. '
  'Error-variance settings (variance, prior variance, prior accuracy, observation counts) end with one entry per error group - a single value is shared by all groups, counts are summed for one group - and sizes that cannot be matched, or declared counts that contradict the data, are refused with an error.',
  ['inputs', 'configurations'],
  'all combinations of method and option values, all lengths and values of the settings, all numbers of error groups',
  'Tests check a few option combinations; the combination space and the vector lengths are unbounded.',
  ['settings/SimulationOptions.py', 'settings/ModelSettings.py'],
  [('define_simulation_options / _check_dependent_simulation_options', 'settings/SimulationOptions.py'), ('_check_dependent_model_settings / _check_number_of_observations / _check_dependent_model_settings_wrt_nsos', 'settings/ModelSettings.py')])

p('C13', 'Log files hold the whole chain once, in order',
  'When logging to file is on, the blocks written during a run together contain every chain row from 0 to nsimu-1 exactly once, in order, for any save size and run length, in both the binary and the text format; the log lists exactly the row ranges written. '
  'Reading the files back reproduces the chains of that run, row by row, in the order they were generated.',
  ['inputs', 'configurations', 'histories'],
  'all run lengths, save sizes, numbers of blocks and chain contents',
  'Tests write one or two tiny blocks; the partition property and the order of more than ten blocks are not covered.',
  ['MCMC.py', 'chain/ChainProcessing.py'],
  [('__save_to_log_file / __save_chains', 'MCMC.py'), ('_save_to_bin_file / _save_to_txt_file / read_in_bin_file / read_in_txt_file', 'chain/ChainProcessing.py')],
  ['log directory'])

p('C14', 'A restarted simulation continues from where the previous one ended',
  'Continuing with previous results in memory keeps all earlier chain rows unchanged and appends nsimu-1 new rows generated from the last state of the previous run; continuing from a saved results file starts at the final parameter values and the final proposal covariance of that run. '
  'Declared limits, priors and non-sampled values are not altered by restarting.',
  ['inputs', 'histories', 'configurations'],
  'all chain lengths, numbers of restarts, parameter patterns and option settings',
  'Tests restart one tiny run and check shapes.',
  ['MCMC.py', 'settings/ModelParameters.py'],
  [('__setup_simulator / __expand_chains', 'MCMC.py'), ('_results_to_params', 'settings/ModelParameters.py')],
  ['results chain after restart'])

p('C15', 'The results summary agrees with the chains and settings',
  'The reported final parameter vector equals the last chain row on sampled entries and the declared values elsewhere; the reported proposal covariance equals R^T R, also inside the full-size covariance at the sampled positions; rejection rates are the counts divided by the number of simulations; the per-stage acceptance counts of delayed rejection sum to the number of simulations minus rejections. '
  'Names, limits, priors, options and model settings in the summary are those used in the run, and a light export drops only the three chains.',
  ['inputs', 'histories', 'configurations'],
  'all runs: chain contents, parameter patterns, counts and option values',
  'Tests check the presence of keys for one fixture.',
  ['structures/ResultsStructure.py', 'MCMC.py'],
  [('add_basic / add_dram / add_options / add_model / add_prior', 'structures/ResultsStructure.py'), ('lighten_results / removekey', 'structures/ResultsStructure.py'), ('__generate_simulation_results', 'MCMC.py')],
  ['results dictionary'])

p('C16', 'Parallel chains get valid, separate set-ups and ordered results',
  'Each parallel chain starts from its own row of the initial values (parameters that are not sampled keep their declared value), generated values lie within the limits (finite stand-ins for infinite ones), user values outside the limits are refused, and a surplus of columns or a different number of rows is reconciled as documented. '
  'Each chain has its own copy of data, options, model settings and parameters and its own directory and results file, so nothing one chain does can change another or the original set-up; results are returned in chain order.',
  ['inputs', 'configurations', 'schedules'],
  'all numbers of chains, parameters, limits, initial values and draws',
  'Tests use two or three chains and fixed values.',
  ['ParallelMCMC.py'],
  [('setup_parallel_simulation', 'ParallelMCMC.py'), ('get_parameter_features / check_initial_values / generate_initial_values / check_shape_of_users_initial_values', 'ParallelMCMC.py'), ('run_parallel_simulation', 'ParallelMCMC.py')])

p('C17', 'Convergence diagnostics compute their published formulas',
  'Chain mean and standard deviation, batch-mean standard deviation, Monte-Carlo error, integrated autocorrelation time, Geweke z and p values and Gelman-Rubin statistics (potential scale reduction, within and between variance, effective samples) equal their defining formulas for every chain. '
  'Columns are treated independently: the diagnostics of one parameter do not depend on the other columns, and the chains passed in are not modified.',
  ['inputs'],
  'all chains of any length and number of parameters, any number of chains',
  'Tests check one random fixture for type and a few values.',
  ['chain/ChainStatistics.py'],
  [('chainstats / batch_mean_standard_deviation / geweke / spectral_estimate_for_variance / integrated_autocorrelation_time / gelman_rubin / calculate_psrf', 'chain/ChainStatistics.py')])

p('C18', 'Credible and prediction intervals come from matching posterior rows',
  'Every model prediction used for an interval is the model evaluated at one sampled posterior row (sampled entries replaced, the others at their reported values), and the observation noise added to it has the error variance of the same row and of the response it belongs to, in the transformation (normal, square-root, log-normal) the user asked for. '
  'Sampled row numbers are always valid rows; reported quantiles are interpolated order statistics, increasing in the quantile level; the credible levels are symmetric and match their labels.',
  ['inputs', 'configurations'],
  'all chains, error-variance chains, models, numbers of samples, batches and response columns, and all draws',
  'Tests use one fixture with mocked draws and check shapes.',
  ['propagation.py', 'plotting/PredictionIntervals.py', 'plotting/utilities.py'],
  [('calculate_intervals / check_s2chain / observation_sample / define_sample_points / generate_quantiles', 'propagation.py'), ('_calc_credible_ii / _calc_credible_and_prediction_ii / _observation_sample / _analyze_s2chain / _setup_interval_limits / _setup_sstype', 'plotting/PredictionIntervals.py'), ('empirical_quantiles / set_local_parameters', 'plotting/utilities.py')])

p('C19', 'Post-processing helpers keep and order what the user gave them',
  'Combining parallel chains keeps, chain by chain and in order, exactly the rows after the burn-in fraction, labelled with their chain; merging display settings keeps every default the user did not override, takes every user value (recursively for nested settings) and changes neither input; default names fill exactly the missing positions. '
  'The subplot grid has room for every parameter, and plotting subsamples are increasing valid row numbers starting at row zero.',
  ['inputs'],
  'all numbers of chains, chain lengths, burn-in percentages, nested settings, name lists and sizes',
  'Tests check one or two literal cases per helper.',
  ['chain/ChainProcessing.py', 'utilities/general.py', 'plotting/utilities.py'],
  [('generate_combined_chain_with_index / generate_chain_list', 'chain/ChainProcessing.py'), ('check_settings / removekey', 'utilities/general.py'), ('generate_names / extend_names_to_match_nparam / generate_subplot_grid / setup_subsample / check_settings', 'plotting/utilities.py')])

p('C20', 'Seeded runs are reproducible; parallel chains use independent randomness',
  'Two simulations built with the same seed and the same set-up produce identical chains, and chains run in parallel consume independent streams of random numbers.',
  ['histories', 'schedules'],
  'all seeds, set-ups and process schedules',
  'A statement about pairs of whole runs and about operating-system process creation.',
  ['MCMC.py', 'ParallelMCMC.py'],
  [('seeding in the constructor', 'MCMC.py'), ('worker pool', 'ParallelMCMC.py')])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P), 'properties')
