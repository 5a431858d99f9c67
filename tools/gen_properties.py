#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os

M = 'lom/machine.py'
MW = 'lom/matrix_update_wrappers.py'
LW = 'lom/lambda_update_wrappers.py'
MU = 'lom/_numba/matrix_updates_numba.py'
LU = 'lom/_numba/lambda_updates_numba.py'
LO = 'lom/_numba/lom_outputs.py'
LF = 'lom/_numba/lom_outputs_fuzzy.py'
PS = 'lom/_numba/posterior_score_fcts.py'
MM = 'lom/_numba/max_machine_sampler.py'
AX = 'lom/auxiliary_functions.py'
EX = 'lom/experiments.py'

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text),
        why_tests_cant=why,
        anchors=dict(files=list(files),
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=None)))


prop('C01', 'Predicted data equals the logical product of the factors',
     "For every supported logical model (outer operator over latent dimensions, inner operator over factors), every number of "
     "latent dimensions and both two- and three-factor layers, the deterministic prediction for a data cell is +1 exactly when "
     "the outer operator applied to the inner operator over that cell's factor rows is true, and -1 otherwise (XOR meaning exactly one). "
     "All public product generators - the compiled-kernel one, the generic one for all 36 operator pairs, the Boolean tensor product - "
     "agree with this definition cell by cell.",
     ['inputs', 'configurations'],
     'all factor matrices with entries in {-1,1}, all shapes, all models, both arities',
     'Tests compare ten random length-3 vectors per 2-factor kernel; no test pins a 3-factor kernel, other latent sizes, or the non-canonical operator pairs.',
     [LO, LU, AX],
     [('scalar output kernels', LO), ('get_scalar_output_function_2d/_3d, make_output_function_*', LU),
      ('lom_generate_data, lom_generate_data_fast, get_lop, boolean_tensor_product', AX)],
     observe=['return value of aux.lom_generate_data / lom_generate_data_fast'])

prop('C02', 'Probabilistic product is the exact probability of a 1',
     "When factor entries are independent probabilities, the probabilistic prediction of every supported model equals the exact "
     "probability that the corresponding logical product is 1, for every number of latent dimensions and for two and three factors. "
     "In particular it coincides with the deterministic prediction when all entries are 0 or 1.",
     ['inputs', 'configurations'],
     'all probability-valued factors, all models, both arities, compiled and generic generators',
     'Tests compare three random length-3 vectors per 2-factor kernel with a Python version; no 3-factor probabilistic kernel and no matrix-level routing is compared.',
     [LF, LU, AX],
     [('fuzzy kernels', LF), ('get_scalar_output_function_*(fuzzy=True)', LU), ('lom_generate_data_fast(fuzzy=True), lom_generate_data_fuzzy, get_fuzzy_lop', AX)])

prop('C03', 'Conditional evidence for a factor entry is exact',
     "For every supported classical model the evidence the data contribute to a factor entry is the sum, over the data cells that "
     "depend on it, of data value times half the change of the model's prediction when the entry is switched from -1 to +1. "
     "Missing cells (0) contribute nothing, every dependent cell is counted exactly once, and the entry's current value has no influence.",
     ['inputs', 'configurations'],
     'all factor values, all data in {-1,0,1}, all shapes, all models, both arities',
     'Tests only check that chains started at the ground truth stay accurate; a wrong score for rare activity patterns is absorbed by that tolerance.',
     [PS, MU],
     [('posterior_score_* kernels', PS), ('get_posterior_score_fct', MU)])

prop('C04', 'Factor entries are redrawn from their full conditional',
     "Whenever inference redraws a factor entry of a classical layer, the log-odds used are the layer's dispersion times the data evidence, "
     "plus for each parent layer that parent's dispersion times that parent's own prediction for this entry, plus the logit of the entry's Bernoulli prior "
     "- each exactly once and nothing else. The accept/reject rule leaves that two-state conditional distribution invariant.",
     ['inputs', 'configurations', 'histories'],
     'all layer architectures (one child, parents, both), all models incl. two parents of different models, all factor/data values',
     'No test builds a machine with parent layers, and the update rule is only observed through two extreme noise levels.',
     [MU, MW],
     [('make_sampling_fct_* builders', MU), ('flip_metropolised_gibbs_numba', MU), ('get_sampling_fct', MW)])

prop('C05', 'Fixed entries, matrices and parameters never change',
     "Inference never changes a factor entry that is flagged in the matrix's fixed-entries mask, never changes any entry of a matrix declared fixed, "
     "and never changes a noise parameter declared fixed; entries that are not flagged are all redrawn in each sweep. "
     "This holds for every model with a fixed number of latent dimensions and every layer architecture.",
     ['inputs', 'configurations', 'histories'],
     'all masks, all subsets of fixed matrices/parameters, all models and architectures',
     'No test sets a fixed-entries mask or a fixed factor/parameter.',
     [MU, MW, MM, M],
     [('Z_fixed guard in sampling kernels', MU), ('filter on .fixed in Machine.infer', M), ('mask argument in wrappers', MW)],
     state=[('fixed_entries', '1 marks entries never to be resampled', M), ('fixed', 'whole matrix or parameter is constant', M)])

prop('C06', 'Factors, siblings and data are paired along matching axes',
     "For a factor on any axis of a layer, its updates read, for each of its rows, exactly the slice of the data that belongs to that row and pair "
     "each remaining data axis with the sibling factor of that axis; parent layers are read along the matrix's own rows and columns. "
     "No computation of predictions, updates or noise estimates indexes an array along one axis with a position of another, so data of unequal side lengths are handled like square data.",
     ['inputs', 'configurations'],
     'all shapes, all axes, all architectures',
     'Tests use 3-factor data with two equal sides and mostly symmetric settings, so swapped axes or siblings stay within bounds unnoticed.',
     [MW, MU, LU, PS, LO, AX],
     [('transpose_order and siblings ordering', MW), ('MachineMatrix.siblings, MachineLayer.factors ordering', M)])

prop('C07', 'Noise parameter is the smoothed fraction of correct predictions',
     "Each noise update sets the logistic of the dispersion to (number of observed cells predicted correctly + alpha) / (number of observed cells + alpha + beta) for the layer's "
     "Beta(alpha, beta) prior, floored so that the dispersion is never negative. Missing cells count neither as observed nor as correct, and every observed cell counts exactly once, "
     "for every model and arity.",
     ['inputs', 'configurations'],
     'all data in {-1,0,1}, all factors, all priors, all shapes, all models',
     'The single unit test covers one model with perfect fit, no missing data and the flat prior.',
     [LU, LW],
     [('make_lbda_update_fct', LU), ('make_correct_predictions_counter', LU), ('get_update_fct', LW)],
     state=[('lbda.val', 'dispersion parameter', M)])

prop('C08', 'Model canonicalisation preserves the logical meaning',
     "For each of the 36 outer/inner operator pairs, the model a requested model is translated to, together with the reported data and factor inversions, "
     "denotes the same logical function, is one for which inference is implemented, and the child's data are negated exactly when a data inversion is reported. "
     "The class table used for densities and the advertised canonical model lists are consistent with this.",
     ['configurations', 'inputs'],
     'all 36 operator pairs, all numbers of factors and latent dimensions',
     'Tests exercise only the eight implemented models, none of which needs translation.',
     [AX],
     [('canonise_model, replace_equivalent_model', AX), ('get_lom_class, canonical_loms, implemented_loms', AX)])

prop('C09', 'Layer output is a probability for every technique',
     "A layer's output for every technique that the library offers lies in [0,1] and is the probability of a 1 under that technique: the current state, the thresholded posterior mean (threshold at zero in sign coding), "
     "the product of posterior means, or the average over all retained samples. With emission noise it is mixed as p*sigma + (1-p)*(1-sigma); without mapping to probabilities it is the same value on the [-1,1] scale.",
     ['inputs', 'configurations', 'histories'],
     'all traces, factor values, models, arities and flag combinations',
     'Tests threshold factor_mean/factor_map outputs at .5 after near-perfect inference, which hides wrong scales, routing and averaging.',
     [M, AX],
     [('MachineLayer.output', M), ('lom_generate_data_fast, lom_generate_data_fuzzy', AX)],
     state=[('prediction', 'cached output', M)])

prop('C10', 'Every retained sample is recorded once, in order, unaliased',
     "After inference with S samples, each updated matrix and noise parameter has a trace of exactly S rows, and row i holds a copy of its state right after its i-th sampling-phase update; "
     "no row is skipped, overwritten, left uninitialised or aliased to live state. This holds on every call of inference, whatever burn-in did before.",
     ['inputs', 'histories', 'configurations'],
     'all sample counts, burn-in outcomes (converged or not), repeated calls, member sets',
     'Tests look only at averages of the trace, which are insensitive to off-by-one, stale or missing rows.',
     [M],
     [('Trace.allocate_trace_arrays/update_trace', M), ('Machine.infer, Machine.burn_in', M)],
     state=[('trace', 'posterior samples', M), ('trace_index', 'next row to write', M)])

prop('C11', 'Updates always use the current model settings',
     "Every update reads the model's state - data, sibling factors, noise parameter, fixed-entries mask, Bernoulli and Beta priors - as it is at the time of the update. "
     "Changing any of them between two inference calls therefore affects the next call exactly as if the machine had been built with the new setting.",
     ['histories', 'configurations'],
     'all sequences of setting changes and inference calls',
     'No test calls inference twice on one machine or sets a prior.',
     [MW, LW, LU, M],
     [('closures returned by get_sampling_fct / get_update_fct', MW), ('cached sampling_fct', M)])

prop('C12', 'Parallel loops have independent iterations',
     "In every parallel loop, no iteration reads or writes a memory location or local variable that another iteration writes, except for pure sum reductions. "
     "Results of factor updates, predictions and counts therefore do not depend on the order in which, or number of threads on which, the iterations run.",
     ['schedules', 'inputs'],
     'all interleavings of prange iterations, all shapes',
     'The tests run with compilation disabled, where parallel loops are sequential.',
     [MU, LU, LO, LF, MM],
     [('prange loops', MU), ('prange loops', LU), ('prange loops', LO), ('prange loops', LF)])

prop('C13', 'Helpers and kernels do not modify their inputs',
     "Generating products, adding noise, splitting data into training and test sets, scoring, counting and computing outputs leave every array passed in unchanged; an update writes only to the matrix (or parameter) being updated. "
     "The only function that alters data in place is model canonicalisation, which negates the child matrix of an inverted model.",
     ['inputs', 'histories'],
     'all inputs and call sequences',
     'Tests do not compare arguments before and after calls.',
     [AX, EX, LO, LF, PS, LU, MU, MM],
     [('copying idioms (X.copy(), np.copy, np.array)', AX), ('kernels write only their first argument', MU)])

prop('C14', 'Factor matrices stay sign-coded',
     "Every value that initialisation, sampling, resetting or MAP-setting stores into a factor matrix is -1 or +1 (threshold at zero for MAP), given that the matrix was sign-coded before.",
     ['inputs', 'histories'],
     'all random draws, all models and operations',
     'Tests never inspect the values of sampled factors apart from one update at two extreme settings.',
     [M, MU, AX, MM],
     [('flip_* kernels', MU), ('MachineMatrix.__init__, set_to_map', M), ('reset_dimension', AX)])

prop('C15', 'Removing a latent dimension keeps the layer consistent',
     "When a latent dimension is removed from a layer, the same column is removed from every per-dimension array of that layer - all factors, their fixed-entry masks and per-dimension noise parameters - so that all remaining dimensions keep their own values. "
     "Automatic cleaning examines every latent dimension, also those that move into the place of a removed one, and reports whether any dimension was removed or reset.",
     ['inputs', 'configurations', 'histories'],
     'all factor values, masks, models, positions and numbers of removed dimensions',
     'No test enables automatic cleaning or resetting.',
     [AX, M],
     [('remove_dimension, reset_dimension, clean_up_codes', AX)],
     state=[('fixed_entries', 'mask with one column per latent dimension', M)])

prop('C16', 'Every code path links',
     "Every name, module attribute and internal function that any reachable code of the package refers to exists, and every internal call passes an argument list its callee accepts, including declared compiled signatures. "
     "No supported call therefore dies with a NameError, AttributeError on a module or wrong-arity TypeError, however rarely the path is taken.",
     ['programs', 'configurations'],
     'all paths of all functions of the package',
     'Tests execute a fraction of the branches; unexecuted ones fail only when a user gets there.',
     [M, MW, LW, MU, LU, LO, LF, PS, MM, AX, EX],
     [('imports and dispatch functions', MU)])

prop('C17', 'An explicit seed determines the random result',
     "A noise or prediction helper that accepts a seed produces, when a seed is given, the same result on every call with that seed, independent of earlier random draws.",
     ['inputs', 'histories'],
     'all seeds and generator histories',
     'No test passes a seed.',
     [AX],
     [('add_bernoulli_noise_2d, add_bernoulli_noise_2d_biased, predict_applicability_fast', AX)])

prop('C18', 'Train/test splits hold out observed cells only',
     "Splitting data returns a training copy in which exactly the held-out cells are set to missing and all other cells are unchanged, and (where a mask is returned) a test mask that marks only cells that were observed. "
     "The balanced variants hold out equally many positive and negative cells.",
     ['inputs', 'configurations'],
     'all data in {-1,0,1}, shapes, split fractions',
     'The only test that splits data does not inspect the result.',
     [EX, AX],
     [('split_train_test, split_tensor_train_test_old', EX), ('split_test_train', AX)])

prop('C19', 'Expected density equals the probability of a 1',
     "For every supported operator pair, the expected data density for iid factor entries of density f equals the probability that the logical product is 1, for all numbers of latent dimensions L and factors K.",
     ['inputs', 'configurations'],
     'all models, L, K, f',
     'The only test uses K=2, L=3, f=.5, swallows its assertion errors, and does not pass in this environment.',
     [AX],
     [('expected_density, get_lom_class', AX)])

prop('C20', 'MAX-AND semantics',
     "The MAX-AND prediction of a cell is the largest dispersion among its active latent dimensions (0 if none is active). The evidence for a MAX-AND factor entry compares its own dispersion with that of the strongest other active dimension, "
     "or with the clamped unit if there is none, and is nil whenever a stronger dimension is active; missing cells contribute nothing.",
     ['inputs', 'configurations'],
     'all factors, dispersions (any ordering), data',
     'The one test starts at the ground truth with equal dispersions and accepts 80% accuracy.',
     [LO, MM, MW],
     [('MAX_AND_product_2d', LO), ('posterior_score_MAX_AND_2D, draw_MAX_AND_2D, compute_lbda_ratios', MM)])

prop('C21', 'Quantised (qL-AND) semantics',
     "The qL-AND prediction of a cell is +1 exactly when at least q latent dimensions are active for its column's threshold q, and -1 otherwise; the evidence for a factor entry is the exact change of that prediction times the data, "
     "scaled by the dispersion, and sampled thresholds are always within the considered range.",
     ['inputs', 'configurations'],
     'all factors, thresholds >= 1, data in {-1,0,1}',
     'No test uses this model.',
     [LO, MU, MW],
     [('qL_AND_product', LO), ('posterior_score_fct_qL_Z/_U, sample_qL_*', MU)])

prop('C22', 'Counts and scores cannot overflow',
     "Integer accumulators that grow with the data dimensions (evidence scores, numbers of correct predictions) and the declared return types that carry them are wide enough (at least 32 bits) for any data size that fits in memory; counters of 8 bits are bounded by a constant.",
     ['inputs'],
     'all data sizes',
     'Tests use at most a few hundred rows, and interpreted execution hides declared types.',
     [PS, MU, LU, LO, MM],
     [('score accumulators and @jit return types', PS), ('counters', LU)])

prop('C23', 'Burn-in schedule is respected',
     "Burn-in performs at least the requested minimum number of sweeps, sweeps every non-fixed matrix once per iteration, keeps noise parameters untouched during the requested initial iterations, and always ends by the maximum (or the minimum or the number of iterations with fixed noise, where these are larger). "
     "Convergence is judged only on complete windows of recorded noise values, and an annealed noise parameter reaches its target at the end of the schedule.",
     ['inputs', 'histories', 'configurations'],
     'all parameter settings and chains',
     'Tests do not observe iteration counts, windows or the annealing path.',
     [M],
     [('Machine.burn_in', M), ('check_convergence_single_trace', AX)],
     state=[('burn_in_iters', 'number of burn-in sweeps', M)])

prop('C24', 'Unsupported requests are rejected with an error',
     "A model, architecture, arity, operator or output technique that is not supported raises an error; it never enters an interactive debugger, returns undefined or stale results, or leaves the layer's model label altered.",
     ['inputs', 'configurations'],
     'all unsupported names and combinations',
     'Tests only use supported configurations.',
     [AX, MW, MU, LU, M],
     [('else-branches of dispatch functions', MU), ('canonise_model', AX), ('get_sampling_fct', MW), ('MachineLayer.output', M)])

prop('C25', 'The chain converges to the posterior and reconstructs data',
     "With enough iterations the retained samples are distributed according to the model posterior, and low-noise data are reconstructed accurately.",
     ['inputs', 'histories'],
     'all data sets and random streams',
     'Statistical and asymptotic statement.',
     [M], [('Machine.infer', M)])

prop('C26', 'Nonparametric (IBP) sampler targets the IBP posterior',
     "One update of the row factor of an OR-AND-IBP layer (N rows, concentration alpha, attribute density q) goes through the rows in turn: dimensions used by no other row are dropped; each entry of the dimensions used by m > 0 other rows is drawn with log-odds dispersion times evidence plus logit(m/N); then k in {0, 1, 2} new dimensions, used by this row only, are added with probability proportional to (alpha/N)^k / k! times the likelihood of the row's unexplained observed cells with the new attributes integrated out at density q; then their attributes are drawn with log-odds dispersion times evidence plus logit(q).",
     ['inputs', 'histories'],
     'all data, factors, dispersions, concentration parameters, densities and random streams',
     'The only test checks a reconstruction accuracy and cannot be collected in this environment.',
     [MU], [('sample_2d_IBP', MU)])

prop('C27', 'MAX-AND dispersion update is the sequential smoothed estimate',
     "Each MAX-AND noise update assigns, greedily from the best-predicting dimension downwards, the Laplace-smoothed fraction of ones among the observed cells explained by that dimension and no earlier one; the clamped unit gets the same fraction of the cells no dimension explains, but never more than the smallest dispersion.",
     ['inputs'],
     'all factors and data',
     'The one MAX-AND test accepts 80% accuracy.',
     [MM], [('lbda_MAX_AND', MM)])

prop('C28', 'Quantised threshold is redrawn from its conditional',
     "In a qL-AND layer every call of the threshold update redraws the threshold q of each column independently from q in 1..5 with probability proportional to gamma^q / q! times exp(dispersion times the number of observed cells of that column which the factors predict correctly under that threshold); missing cells have no influence.",
     ['inputs', 'histories'],
     'all factors, data, dispersions, hyper-parameters gamma and random streams',
     'The one qL-AND test accepts a reconstruction accuracy; a wrong prior or likelihood only shifts the distribution of the draws.',
     [MU, MW], [('sample_qL_q', MU), ('random_choice', MU), ('get_sampling_fct', MW)])

prop('C29', 'Simulated data and noise have the stated distribution',
     "The noise helpers flip every observed cell independently with the given probability (p; p_plus for ones and p_minus for minus ones in the biased variant), leave missing cells missing and their input unchanged; random_machine_matrix draws independent entries that are +1 with probability p; freshly initialised matrices and factors are uniform over {-1, 1}; generate_random_tensor draws independent factor entries with density (1 - (1 - d)^(1/L))^(1/3) so that a cell is one with probability d, and its clean data are the Boolean product of the returned factors, the noisy data flip each cell with the given probability; generate_orm_product returns the Boolean product of its factors, in which no column contains another one.",
     ['inputs', 'histories'],
     'all data, probabilities, sizes and random streams',
     'Draws are random: a wrong probability, a dependence between cells or an altered input survives assertions on a few samples.',
     [AX, EX, M], [('add_bernoulli_noise', AX), ('add_bernoulli_noise_2d', AX), ('add_bernoulli_noise_2d_biased', AX),
                   ('random_machine_matrix', AX), ('generate_orm_product', AX), ('generate_random_tensor', EX), ('MachineMatrix.__init__', M)])

prop('C30', 'Convergence criterion',
     "check_convergence answers true exactly when, for every parameter, the logistic function of the mean of the first half of its samples (the first n // 2 of n) and that of the mean of the other samples differ by less than eps.",
     ['inputs'],
     'all traces and tolerances',
     'No test inspects the criterion; a wrong one only ends the burn-in too early or too late.',
     [M, AX], [('Trace.check_convergence', M), ('check_convergence_single_trace', AX)])

prop('C31', 'Experiment drivers report the requested model',
     "LOM_predictive fits the requested model to the training data only (held fixed during inference) and reports the fraction of held-out cells whose value agrees with the posterior-mean prediction (threshold 1/2) in the sense of the requested model, whatever inversion its canonical form needs, together with the model, the number of dimensions and the posterior means of the factors; data, training data and mask of the experiment stay unchanged, so that experiments can share them. The grid search runs every combination of model, size and repetition exactly once, all with the same split and the requested settings. tensorm_reconstruct accepts data coded as zeros and ones or minus ones and ones, leaves them unchanged, fits an OR-AND model of the given size to them and returns its posterior-mean and plug-in (MAP factor) reconstructions and the posterior means.",
     ['inputs', 'configurations', 'histories'],
     'all data, masks, models, factor samples and settings',
     'No test runs an experiment; an inversion of the truth or of the shared training data only changes reported accuracies.',
     [EX, M, AX], [('LOM_predictive', EX), ('LOM_hyperparms_parallel_gridsearch', EX), ('tensorm_reconstruct', EX), ('MachineLayer.output', M), ('canonise_model', AX)])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')
