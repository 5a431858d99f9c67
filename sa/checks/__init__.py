"""Registry: property -> obligations."""
from . import sampling, products, canon, link, lam, fuzzy, outputs, coding, maxand, qland
from . import driver, late, split, reject, maxnoise, ibp, sim

REG = {}


def reg(cid, jobs, rule, explain, level='proof', **kw):
    REG[cid] = dict(jobs=jobs, rule=rule, explain=explain, level=level, **kw)


ASSUME = ['arithmetic on reals: floating-point rounding is not modelled',
          'numpy and numba calls behave as their models in sa/nplib.py say',
          'sides of the data and the number of latent dimensions are at least one']

reg('C01', products.c01, level='other', rule='value of the product at an arbitrary cell = outer(inner(letters of each latent dimension))',
    explain='Abstract interpretation of the product generators at an arbitrary cell; the latent dimension is a counted '
    'partition by the inner operator (0, 1, 2 or more active / inactive members), so the result holds for every L.',
    assume=ASSUME)
reg('C03', sampling.c03, rule='evidence of every data cell, in every abstract world, equals x/2*(f(z=1)-f(z=-1))',
    explain='Abstract interpretation of get_sampling_fct and the update it returns for every model, arity and axis; data sides '
    'are symbolic (arbitrary position), latent dimensions are a counted partition by the inner operator, valid for every L.',
    assume=ASSUME)
reg('C04', sampling.c04, rule='log-odds at the accept/reject rule = lbda*evidence + sum of parent terms + prior logit; detailed balance',
    explain='As C03, plus parent layers of every model and child-less matrices; the algebraic normal form of the log-odds is '
    'compared with the specification and the accept/reject rule is checked for detailed balance.', assume=ASSUME)
reg('C05', sampling.c05, rule='no write to an entry with mask 1; every entry with mask 0 is redrawn; fixed members are not updated',
    explain='As C03, tracking writes to the entry at hand under both mask values.', assume=ASSUME)
SAMP = 'Abstract interpretation of get_sampling_fct and the update it returns for every model, arity and axis, with and without parents; '
reg('C06', sampling.c06, rule='every position used along an array axis is a position of that axis', explain=SAMP +
    'every array axis carries a label and every index the axis it ranges over.', assume=ASSUME)
reg('C12', sampling.c12, rule='no parallel iteration writes what another one reads or writes, sums excepted', explain=SAMP +
    'cells and locals written in prange bodies are tracked.', assume=ASSUME)
reg('C13', sampling.c13, rule='stores reach only the array that is being updated', explain=SAMP + 'stores are tracked per array.', assume=ASSUME)
reg('C14', sampling.c14, rule='values stored in a factor are -1 or +1', explain=SAMP + 'stored values are compared with the sign coding.',
    assume=ASSUME)
reg('C22', sampling.c22, rule='accumulators that grow with the data have at least 32 bits', explain=SAMP + 'accumulator types are tracked.',
    assume=ASSUME)
reg('C08', canon.c08, rule='truth table of the requested model = truth table of the translation with the reported inversions',
    explain='Constant propagation of every one of the 36 model names through add_layer, canonise_model, replace_equivalent_model and '
    'get_lom_class, with symbolic data; truth tables of the two functions are compared for 2 and 3 factors and 1..3 latent '
    'dimensions (operators depend on counts 0, 1, >=2, all only).', assume=ASSUME)
reg('C19', canon.c19, rule='expected_density is the same polynomial in f as the probability of a 1', level='other',
    explain='Abstract interpretation with symbolic density f and constant model, L, K; the returned normal form is compared with '
    'the polynomial of the binomial distribution. Exact for every f; L and K are enumerated up to a bound.', assume=ASSUME)
reg('C16', link.c16, rule='names and module attributes resolve; argument lists fit the callee; compiled signatures fit the parameters',
    explain='Name resolution, module attributes, object attributes, argument lists of internal calls (functions, nested functions, '
    'methods, constructors), compiled signatures, tuple unpacking and never-bound locals over the syntax tree of every module of the '
    'package; in addition the abstract interpretation of every sampler architecture may raise no NameError, AttributeError, '
    'TypeError or any other exception.', assume=['numpy has the attributes its stub files declare',
    'objects of the package have no attributes other than those stored somewhere in the package'])

reg('C07', lam.c07, rule='logistic of the dispersion = (correct + alpha) / (observed + alpha + beta), floored at dispersion 0',
    explain='Abstract interpretation of get_update_fct and the update it returns; the stored value is brought to a normal form, the '
    'prior counts are separated and both counts are tabulated cell by cell over (data, prediction) in {-1,0,1} x {-1,1}; the floor '
    'is compared on both sides of the threshold.', assume=ASSUME)

reg('C02', fuzzy.c02, level='other', rule='prediction = exact probability polynomial; prediction at 0/1 entries = truth value for every L',
    explain='Abstract interpretation of the probabilistic product generators at an arbitrary cell. Entries are indeterminates for 1..3 '
    'latent dimensions: the value is brought to a normal form and compared with the polynomial obtained by summing over all truth '
    'assignments (exact for all probabilities). Entries in {0,1}: any number of latent dimensions by the counting abstraction.',
    assume=ASSUME)

reg('C09', outputs.c09, level='other', rule='output cell = specified expression of the product generator applied to the specified arguments',
    explain='Abstract interpretation of MachineLayer.output for every model, arity and technique with the product generators as opaque '
    'functions: their arguments are compared element by element (arbitrary positions) with the current state, thresholded means, means '
    'or retained samples, and the normal form of an arbitrary output cell with the specified mixture. Sizes are symbolic, the number of '
    'retained samples is enumerated (0, 2 quick; 0..3 thorough).',
    assume=ASSUME + ['the product generators return what C01, C02 and C20 say'])

reg('C15', coding.c15, level='other', rule='column j of every per-dimension array after removal = column of the j-th remaining dimension',
    explain='Abstract interpretation of remove_dimension and reset_dimension on factors with an arbitrary row, masks and dispersions '
    'tagged cell by cell: every column, mask column and dispersion must be the one of the remaining dimension; of clean_up_codes on '
    'every assignment of small factors (shapes 1x1, 2x1, 1x1x1 with up to 4 columns): the remaining dimensions are those that are neither dead '
    'nor equal to an earlier remaining one, and the returned flag says whether there was anything to do.', assume=ASSUME)

reg('C20', maxand.c20, level='other', rule='prediction = largest active dispersion; acceptance odds = exp(sum of log-ratios to the strongest other active dimension)',
    explain='Abstract interpretation of the MAX-AND products and of the whole factor update (wrapper, ratio table, rank order, score, flip) for '
    'every weak order of up to 3 dispersions above the clamped unit (4 thorough for products), the dispersions themselves being symbolic '
    'quotients of positive gaps. A predicted cell is compared as a normal form; for the update the flip probabilities of every abstract '
    'world, as functions of the gaps, must be in detailed balance with the specified evidence.', assume=ASSUME)

reg('C21', qland.c21, level='other', rule='prediction = +1 iff active dimensions >= threshold; acceptance odds = exp(dispersion * data * change of prediction)',
    explain='Abstract interpretation of the quantised product for every state of up to 4 dimensions (6 thorough) and every threshold, of the '
    'whole factor updates (wrapper, score, flip) for up to 3 dimensions and one or two cells per row with a symbolic dispersion, and of '
    'the threshold update with arbitrary data: every value it can store is in the considered range.', assume=ASSUME)

reg('C10', driver.c10, level='other', rule='row i of every trace = copy of the state after the i-th sampling update',
    explain='Abstract interpretation of Machine.infer, burn_in, the traces and the state setters with opaque updates: the k-th update of a '
    'parameter sets its state to the version number k, the outcome of every convergence test and clean-up is left open. Every row of every '
    'trace must be the version recorded after the corresponding update, for a grid of schedule settings, stacks of layers, fixed members and '
    'repeated calls.', assume=ASSUME + ['sampling functions update the state of their own parameter only (C13)'])

reg('C23', driver.c23, level='other', rule='order, number and conditions of updates during burn-in; windows given to the convergence test; annealing path',
    explain='As C10: the sequence of updates in burn-in of every history (all outcomes of convergence tests and clean-ups) is compared with the '
    'schedule.', assume=ASSUME + ['sampling functions update the state of their own parameter only (C13)'])

reg('C11', late.c11, level='other', rule='an update requested before the settings changed computes what one requested afterwards computes',
    explain='Abstract interpretation of every update function (factors, noise parameters, thresholds) requested and used on one set of settings and then '
    'run on another one (data, factors, priors, masks, dispersion replaced): it has to fulfil the rules that C03, C04, C05, C07, C20 and C21 state for the new settings. '
    'Inference in a stack of layers and on repeated calls with changed fixed members is covered by the driver analysis of C10.', assume=ASSUME)

reg('C17', split.c17, level='other', rule='no draw that decides the result comes from a generator not seeded with the given seed',
    explain='Abstract interpretation of the noise helpers with an arbitrary seed (and 0, 1, 7): every generator is tracked, a draw made before its '
    'generator is seeded with an expression of the seed may not decide the path or the result (small shapes, arbitrary probabilities). For '
    'every other function with a parameter seed the statements are followed in order, calls that may draw being resolved over the package.', assume=ASSUME)

reg('C18', split.c18, level='other', rule='mask marks observed cells only; training copy = data with the held-out cells missing; balanced: equal numbers',
    explain='Abstract interpretation of the split functions: for unbalanced splits at an arbitrary cell of a tensor of any size; for balanced '
    'splits all data and all random selections of tensors with up to 4 cells (6 thorough).', assume=ASSUME)

reg('C24', reject.c24, rule='every path of an unsupported request ends in an exception; the label of a layer is the same after output',
    explain='Constant propagation of unsupported requests through the dispatch functions of the package: model and operator names (every name-like '
    'literal of the package, near misses of the supported names and names that occur nowhere: since the code tells names apart by comparing them with '
    'literals, these represent every name), architectures (axes, parents, models), output and plotting techniques, with symbolic data; no function '
    'may start a debugger; the label of a layer is compared before and after output for every model and technique.', assume=ASSUME)

reg('C27', maxnoise.c27, level='other', rule='the dispersions are one of the outcomes of the sequential rule (ties broken either way)',
    explain='Abstract interpretation of get_update_fct and the MAX-AND update it returns on small layers: data, factors enumerated as far as the '
    'code reads them (trace partitioning), every stored dispersion is compared, as an exact fraction, with the outcomes of the greedy rule; '
    'states that were not read are completed in all ways.', assume=['sizes beyond those enumerated (up to 4 cells, 3 dimensions) are not covered'])

reg('C26', ibp.c26, level='other', rule=ibp.RULE,
    explain='Abstract interpretation of the IBP update from enumerated states of small data with symbolic dispersion, concentration and density: '
    'every draw the code makes is matched, in order, with the draw the specification makes after the same decisions; its threshold or its '
    'probabilities must be the same algebraic expression (odds of the numbers of new dimensions after cancellation of the common factor), and '
    'the final factors must be the decided ones. All decisions are followed in one row, one continuation in the others.',
    assume=['states beyond the enumerated ones (up to 3 rows, 2 columns, 2 dimensions) are not covered'])

reg('C28', ibp.c28, level='other', rule='the probability of every combination of thresholds has the odds gamma^q / q! * exp(dispersion * correct cells)',
    explain='Abstract interpretation of the threshold update (reached through get_sampling_fct) from enumerated small states with symbolic dispersion '
    'and gamma: every outcome of the draws is followed, its probability is read off as the length of the interval of the uniform numbers that lead '
    'to it, and the ratios of these lengths are compared, as algebraic expressions, with the conditional distribution; they must also sum to one.',
    assume=['states beyond the enumerated ones (up to 4 rows, 2 columns, 6 dimensions) are not covered'])

reg('C29', sim.c29, level='other', rule='the probability of every outcome, as a function of the given probabilities, is the stated one',
    explain='Abstract interpretation of the noise helpers and generators on small shapes with symbolic probabilities: every outcome of the draws is '
    'followed, its probability is read off as the product of the lengths of the intervals of the random numbers that lead to it, and compared '
    'with the stated distribution as an algebraic expression; the data returned must be the product of the factors returned, the '
    'input must be unchanged and missing cells missing.', assume=ASSUME)

reg('C30', sim.c30, level='other', rule='true iff |logistic(mean of first half) - logistic(mean of second half)| < eps for every parameter',
    explain='Abstract interpretation of check_convergence on traces whose halves have a prescribed mean (a grid of pairs of means and tolerances on both '
    'sides of the criterion) while the samples deviate from it by arbitrary symbolic amounts, for one and several parameters in which '
    'either all or only one fails: the answer must be the one of the criterion for all deviations.', assume=ASSUME)

reg('C31', sim.c31, level='other', rule='accuracy = fraction of held-out cells on which the truth and the posterior-mean prediction of the requested model agree',
    explain='Abstract interpretation of LOM_predictive for all two-operator models with the inference replaced by given factor samples, on small data: '
    'what the machine is trained on, the accuracy, means and names returned, and the data, training data and mask afterwards are compared with '
    'the model evaluated directly; tensorm_reconstruct likewise. The grid search is interpreted with the parallel map replaced by a recorder of the experiments it is given.',
    assume=ASSUME + ['experiments beyond the enumerated ones (up to 4 cells, 2 dimensions, 3 samples) are not covered'])
