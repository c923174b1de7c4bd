"""
Writes properties.jsonl and MANIFEST.json from the table below.

    python3 tools/gen.py
"""
import importlib.util
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MU = 'lom/_numba/matrix_updates_numba.py'
PS = 'lom/_numba/posterior_score_fcts.py'
LU = 'lom/_numba/lambda_updates_numba.py'
LO = 'lom/_numba/lom_outputs.py'
LF = 'lom/_numba/lom_outputs_fuzzy.py'
MX = 'lom/_numba/max_machine_sampler.py'
MW = 'lom/matrix_update_wrappers.py'
LW = 'lom/lambda_update_wrappers.py'
AU = 'lom/auxiliary_functions.py'
MA = 'lom/machine.py'
EX = 'lom/experiments.py'

P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique,
         note, observe=(), state=()):
    P.append(dict(
        id=id, title=title, statement=statement, over=over, text=text,
        why=why, files=files, mechanism=mechanism, technique=technique,
        note=note, observe=list(observe), state=list(state)))


TRUST = (' Trusted: the reference semantics in mc/ref.py, the stand-ins for'
         ' random numbers in mc/rng.py; pure Python mode of numba.')
ENUM = 'explicit-state enumeration of the real sampler: '

prop('C01', 'Outputs are the defining logical formula of the model',
     'For every model, every number of factors and latent dimensions and '
     'all binary factors, the generated data, the layer output for binary '
     'factors and the Boolean tensor product are exactly the outer operator '
     'over the latent dimensions of the inner operator over the factors '
     '(XOR: exactly one), and arrays passed in are not changed.',
     ['inputs', 'configurations'],
     'all 36 models, K factors, L dimensions, all +-1 factor rows',
     'The tests compare two implementations on a few random matrices of one '
     'density; rows with unusual patterns of a few dimensions never occur.',
     [LO, LU, AU, MA], ['scalar output functions per model',
                        'make_output_function_2d/3d', 'lom_generate_data'],
     'exhaustive enumeration of all factor rows up to a bound',
     'All rows with K*L<=12 for all models and entry points; long rows '
     'with few deviations from constant ones (counters, early exits).',
     ['layer.output(point_estimate, factor_map)', 'lom_generate_data_fast'])
prop('C02', 'Mean-factor outputs are exact probabilities of a one',
     'For factor entries that are independent with given probabilities, '
     'the generated output is exactly the probability that the logical '
     'formula of the model holds, for every model, number of factors and '
     'number of dimensions.',
     ['inputs', 'configurations'],
     'all models, K, L, all probabilities of the entries',
     'Tests compare implementations with each other on random input, or not '
     'at all (three factors, inverted models).',
     [LF, LU, AU, MA], ['fuzzy scalar output functions', 'get_fuzzy_lop'],
     'exhaustive enumeration of a grid of probabilities against the sum '
     'over all binary states',
     'The exact value is a polynomial of degree one per entry; agreement on '
     'a grid of three values per entry covers the code if it computes '
     'polynomials of degree at most two per entry.',
     ['layer.output(factor_mean)', 'lom_generate_data_fuzzy'])
prop('C03', 'Every model name is treated as an equivalent supported model',
     'A layer for any of the 36 two-operator models behaves as that model '
     'once data and factors are inverted as the layer reports, missing data '
     'stay missing, and the array of the user keeps its values. Names that '
     'do not denote a model are refused. The lists of canonical models have '
     'exactly one model of each class (up to inversion of factors, or of '
     'factors and data).',
     ['configurations', 'inputs'],
     'all 36 names, all factor rows, all data in {-1,0,1}',
     'Tests use a handful of names and never relate the translated model to '
     'the requested one.',
     [AU, MA], ['canonise_model', 'replace_equivalent_model',
                'canonical_loms'],
     'exhaustive enumeration of names, factor rows and data',
     'Complete for K*L<=8 (12 in the thorough tier).',
     ['layer.model, layer.invert_data, layer.invert_factors'])
prop('C04', 'Factor entries are resampled from their exact conditional',
     'Updating a factor leaves the exact posterior of its free entries given '
     'everything else (data with missing values, other factors, lambda, '
     'Bernoulli prior) invariant, entry by entry as well as jointly, for '
     'every model, axis, size and value of lambda. Every state of positive '
     'probability can be reached and no entry ever leaves {-1,1}.',
     ['inputs', 'configurations'],
     'all binary states, data over {-1,0,1}, lambda, priors, all outcomes of '
     'the random numbers',
     'Sampling noise hides wrong conditionals from the tests, which only ask '
     'for a good reconstruction of easy data.',
     [MU, PS, MW], ['posterior_score_* of the eight models',
                    'make_sampling_fct_onechild',
                    'flip_metropolised_gibbs_numba'],
     ENUM + 'transition probabilities by exploring all random outcomes, '
     'detailed balance in every state',
     'All states within the bounds; large sizes (up to 300 rows, 40000 '
     'cells, 17 dimensions) near constant matrices.',
     ['get_sampling_fct(mat)(mat)', 'Machine.infer'])
prop('C05', 'What is held fixed never changes; everything else can move',
     'Inference never changes a matrix, a matrix entry or a noise parameter '
     'that the user holds fixed, nor observed data, in any phase '
     '(burn-in, annealing, resetting of dimensions, sampling), while every '
     'entry that is not fixed is updated. This holds for any sequence of '
     'fixing, releasing and inferring.',
     ['histories', 'inputs', 'configurations'],
     'all patterns of fixed entries and members, all start states, '
     'histories of fix/release/infer, all random outcomes',
     'Tests fix one matrix for one model and check nothing afterwards.',
     [MA, MU, MX, MW, AU], ['fixed, fixed_entries', 'infer', 'reset_dimension'],
     ENUM + 'all patterns and outcomes; complete inference runs under all '
     'adversaries and histories of operations',
     'Complete within the bounds for single updates; inference runs under '
     'extreme random outcomes rather than all of them.',
     ['values before and after infer'])
prop('C06', 'Hierarchies: conditionals combine child and parent layers',
     'A matrix that is a factor of one layer and the child of up to two '
     'others is resampled from its exact conditional given its own layer '
     'and each parent layer with that layer\'s model and lambda, and one '
     'sweep over a machine leaves the joint posterior invariant. '
     'Constellations that are not supported are refused, not sampled wrongly.',
     ['configurations', 'inputs', 'histories'],
     'all combinations of models of child and parents, axes, states',
     'Tests run hierarchies without checking any distribution.',
     [MU, MW, MA], ['make_sampling_fct_*parent*', 'get_relatives_models'],
     ENUM + 'detailed balance for all constellations; exact Markov chain of '
     'small machines',
     'All 8x8 (one parent), 8x8x8 (thorough: two parents) constellations.',
     ['get_sampling_fct(mat)(mat)', 'Machine.infer'])
prop('C07', 'Lambda is the posterior-mean accuracy over observed data',
     'Updating the noise parameter of a layer sets it to the logit of '
     '(correct + a) / (observed + a + b) for a Beta(a,b) prior, at least 0, '
     'where correct is the number of observed cells whose deterministic '
     'output equals the datum; nothing else changes.',
     ['inputs', 'configurations'],
     'all factors, data over {-1,0,1}, models, priors',
     'Tests compare lambda for few random matrices, without missing data, '
     'without prior.',
     [LU, LW], ['make_correct_predictions_counter', 'make_lbda_update_fct'],
     'exhaustive enumeration of factors and data against the reference',
     'Complete within the bounds; counts up to 90000.',
     ['layer.lbda() after an update or infer'])
prop('C08', 'Missing data carry no information',
     'Adding objects, features or slices of which nothing is observed '
     'changes neither the distribution of any other factor entry nor lambda '
     'nor thresholds, and the factors of the added parts follow their '
     'prior.',
     ['inputs', 'configurations'],
     'all factors, data with missing values, models, axes',
     'No test contains missing values in more than one pattern.',
     [MU, PS, LU, MX], ['scores multiply with the datum 0', 'ND counts '
                        'observed cells'],
     ENUM + 'pairs of machines with and without the unobserved part, exact '
     'distributions compared',
     'Complete within the bounds for every model including MAX-AND and '
     'qL-AND.',
     ['update of factors, lambda, thresholds'])
prop('C09', 'MAX-AND factors are resampled from their exact conditional',
     'In a MAX-AND layer a cell is one with the largest lambda among the '
     'dimensions active in both factors, or with the clamped lambda if there '
     'is none; factor entries are resampled from the exact conditional of '
     'that model for every order and ties of the lambdas, and fixed entries '
     'stay.',
     ['inputs', 'configurations'],
     'all states, data over {-1,0,1}, orders of lambda, axes',
     'Tests only check that MAX-AND runs, with equal initial lambdas.',
     [MX, MW], ['posterior_score_MAX_AND_2D', 'compute_lbda_ratios'],
     ENUM + 'transition probabilities, detailed balance',
     'Complete within the bounds; log ratios in single precision.',
     ['get_sampling_fct(mat)(mat)'])
prop('C10', 'MAX-AND lambdas are assigned greedily by decreasing rate',
     'Updating the lambdas of a MAX-AND layer repeatedly assigns to the '
     'dimension with the highest rate of ones (Laplace) among the observed '
     'cells that are not yet explained that rate, and the rest to the '
     'clamped unit, which never exceeds the others; missing cells are '
     'ignored and nothing else changes.',
     ['inputs'],
     'all factors and data over {-1,0,1}',
     'Not tested at all.',
     [MX], ['lbda_MAX_AND'],
     'exhaustive enumeration against all outcomes of the greedy procedure',
     'Complete within the bounds.', ['layer.lbda() after an update'])
prop('C11', 'MAX-AND output is the probability of a one',
     'The output of a MAX-AND layer is, for every object and feature, the '
     'largest lambda among the dimensions active in both factors or the '
     'clamped lambda if there is none; for posterior means it is the exact '
     'expectation of that over independent entries.',
     ['inputs', 'configurations'],
     'all factor rows, orders of lambda, probabilities',
     'Only shapes are tested.',
     [LO, LF, MA], ['MAX_AND_product_2d', 'MAX_AND_product_fuzzy'],
     'exhaustive enumeration of rows and orders of lambda',
     'Complete within the bounds.', ['layer.output'])
prop('C12', 'Inference follows the documented schedule',
     'For every history of noise parameter values: pre-burn-in makes the '
     'requested number of sweeps, lambda is kept for the requested number of '
     'iterations or annealed up to the requested value, burn-in ends at the '
     'first full window that has converged (every lambda, both halves) or at '
     'the maximum (burn_in_iters reports the number of burn-in iterations, '
     'minimal burn-in included), and then exactly the requested number of '
     'samples is recorded, one per sweep in which every free member is '
     'updated exactly once.',
     ['histories', 'schedules', 'configurations'],
     'histories of lambda values over a small alphabet, orders of the '
     'updates within a sweep, settings',
     'A test sees one history of one setting and only its end.',
     [MA, AU], ['burn_in', 'infer', 'check_convergence'],
     'explicit-state exploration: an automaton of the schedule, all lambda '
     'histories replayed on the real code with scripted update functions',
     'All histories over 2-3 lambda values up to the bound; every trace of '
     'the automaton is validated against the implementation.',
     ['order of calls, traces, burn_in_iters'])
prop('C13', 'Summaries and outputs refer to exactly the recorded samples',
     'After inference, posterior means, MAP values and all output techniques '
     'are functions of exactly the samples recorded in the last call (each '
     'sweep once, in order, for all members simultaneously), of the current '
     'value for members that are fixed, and outputs are probabilities in '
     '[0,1].',
     ['histories', 'configurations'],
     'all histories of samples of a small machine, subsets of fixed members, '
     'repeated calls',
     'Tests check shapes and that a reconstruction error is small.',
     [MA], ['Trace', 'MachineLayer.output'],
     'exhaustive enumeration of sample histories, replayed through infer '
     'with scripted update functions',
     'All histories with up to 12 (14) binary entries.',
     ['trace, mean(), output()'])
prop('C14', 'Inference is a function of data, settings and the seed',
     'With the same data, settings and state of the global random generator, '
     'inference gives bit-identical factors, noise parameters, samples and '
     'outputs, whatever was run before in the process, whatever '
     'uninitialised memory contains and wherever objects are allocated.',
     ['histories', 'configurations'],
     'previous operations of the process, contents of uninitialised memory, '
     'hash seeds, settings, models',
     'A test runs a program once in a fresh process.',
     [MA, MU, MX, LU, AU], ['numpy.random is the only source of randomness',
                            'no state outside the machine'],
     'exhaustive exploration of environments: histories of operations up to '
     'a depth x contents of uninitialised memory x hash seeds',
     'All histories up to the depth for every model; few seeds, as the '
     'property is about everything but the seed.',
     ['values, traces, outputs after infer'])
prop('C15', 'Parallel updates of rows do not depend on the schedule',
     'The rows of a factor that are updated in parallel, the parallel '
     'computation of outputs and the parallel counts for noise parameters '
     'give the same result in every order and interleaving of their '
     'parallel parts.',
     ['schedules', 'inputs'],
     'orders and interleavings of the iterations of all loops declared '
     'parallel; states and data',
     'Tests run one schedule, in pure Python mode even the sequential one.',
     [MU, MX, LU, LO, LF], ['every iteration writes its own row only'],
     'stateless exploration of all interleavings (bounded preemptions) of '
     'the real loops under a controlled scheduler',
     'The loops marked prange are rewritten on import into tasks that can be '
     'preempted before every statement; oracle is the sequential run with '
     'the same random numbers per task. Real threads of compiled code are '
     'not executed.',
     ['values after the update'])
prop('C16', 'Cleaning up removes exactly the useless dimensions',
     'Cleaning up removes (or resets to empty) exactly the latent dimensions '
     'that are empty in a factor or repeat an earlier dimension in a factor, '
     'keeps all others in order and unchanged together with their fixed '
     'entries and lambdas, never resets what is fixed, and tells whether it '
     'found any; layers above lose exactly the entries of the removed '
     'dimensions; after inference with automatic clean-up all sizes are '
     'consistent.',
     ['inputs', 'histories', 'configurations'],
     'all binary factor states, fixed entries, inference runs',
     'Not tested at all.',
     [AU, MA], ['clean_up_codes', 'remove_dimension', 'reset_dimension',
                'burn_in'],
     'exhaustive enumeration of states, directly and through complete '
     'inference runs with scripted update functions',
     'All states within the bounds against a reference.',
     ['factors, fixed entries, lambda, size'])
prop('C17', 'Train/test splits hide exactly what they report',
     'A split sets exactly the reported test cells to missing, reports '
     'observed cells only, never changes its input or any other cell; '
     'unbalanced splits hold out every observed cell independently with the '
     'probability that gives the requested fraction, balanced ones a '
     'uniformly random set with the requested number of ones and of minus '
     'ones, or refuse.',
     ['inputs', 'configurations'],
     'all tensors over {-1,0,1} of small shapes, splits, all random outcomes',
     'Not tested at all; a test would see single outcomes.',
     [EX, AU], ['split_train_test', 'split_test_train'],
     ENUM + 'exact distribution of the test set',
     'Complete within the bounds.', ['training tensor and mask'])
prop('C18', 'Expected densities are exact, and so is their inversion',
     'For every model, number of factors and dimensions, the expected data '
     'density is the exact probability of a one for independent factor '
     'entries of the given density; the factor density computed for a '
     'requested data density has it whenever possible, and random tensors '
     'are products of factors with that density plus the requested noise.',
     ['inputs', 'configurations'],
     'models, K, L, densities',
     'Not tested at all.',
     [AU, EX], ['expected_density', 'factor_density', 'get_lom_class',
                'generate_random_tensor'],
     'exhaustive enumeration of models and of as many densities as determine '
     'the polynomial; exact distribution of random tensors',
     'Complete for K<=4, L<=8 (6, 20) if the code computes polynomials of '
     'degree 2KL at most.', ['returned values'])
prop('C19', 'Simulated noise has exactly the requested distribution',
     'Adding noise flips every observed cell independently with exactly the '
     'requested probability (separately for ones and minus ones if '
     'requested), leaves missing cells and the input array as they are, and '
     'is a function of the seed if one is given.',
     ['inputs'],
     'all data over {-1,0,1} of small shapes, probabilities, all random '
     'outcomes, generator states',
     'Used by tests to make data, but never tested.',
     [AU], ['add_bernoulli_noise*'],
     ENUM + 'exact distribution of the noisy data',
     'Complete within the bounds.', ['returned arrays'])
prop('C20', 'Every call of inference uses the settings of that moment',
     'After any sequence of changes by the user (data, priors, noise '
     'parameters, thresholds, fixed members and entries, additional layers, '
     'previous calls of inference), the next call of inference behaves '
     'exactly as for a new machine that is given the present values and '
     'settings.',
     ['histories'],
     'sequences of operations of the user up to a depth',
     'Tests call infer once on a new machine.',
     [MA, MW, LW], ['get_sampling_fct reads settings at every call', 'infer'],
     'exploration of all operation sequences up to a depth, differential '
     'against a fresh machine, exact one-sweep distributions',
     'All sequences up to length 3 (4) over the alphabet.',
     ['values after infer'])
prop('C21', 'qL-AND: factors, thresholds and output follow the model',
     'In a qL-AND layer a cell is predicted one iff at least as many '
     'dimensions are active in both factors as the threshold of its feature; '
     'factors are resampled from their exact conditional given thresholds, '
     'lambda, prior and fixed entries, thresholds from their exact '
     'conditional on 1..5 under a Poisson prior given the observed data.',
     ['inputs', 'configurations'],
     'all factors, thresholds, data over {-1,0,1}, lambda, gamma',
     'A test only checks that it runs.',
     [MU, LO, MA], ['sample_qL_factors_*', 'sample_qL_q', 'qL_AND_product'],
     ENUM + 'transition probabilities, detailed balance, exact threshold '
     'distributions',
     'Complete within the bounds.',
     ['update of factors and thresholds, layer.output'])
prop('C22', 'OR-AND-IBP: columns are born, used and removed as in the IBP',
     'In an OR-AND-IBP layer, existing columns are resampled with the number '
     'of other users as prior, columns without other users are dropped, '
     'one of up to two new columns with the truncated Poisson(alpha/N) prior '
     'is drawn by its exact marginal likelihood, new features from their '
     'exact conditional; both factors always keep the same number of '
     'columns and traces are padded with inactive columns.',
     ['inputs', 'histories'],
     'all factors, data over {-1,0,1}, alpha, lambda, priors, all random '
     'outcomes; sequences of updates with changing numbers of columns',
     'A test only checks that the number of columns ends up plausible for '
     'one data set.',
     [MU, MW, MA], ['sample_2d_IBP', 'allocate_trace_arrays_IBP',
                    'update_trace_IBP'],
     ENUM + 'exact distribution of one update against a reference '
     'distribution; scripted histories of columns',
     'Complete within the bounds.',
     ['factors and traces after updates'])
prop('C23', 'Machines are constructed as requested',
     'For any shape, number of factors, latent size and model, the factors '
     'of a layer have one row per index of their axis and one column per '
     'latent dimension, entries are independent fair +-1, nothing is fixed, '
     'data of any numeric type keep their values, and a layer is linked to '
     'exactly the matrix it was made for.',
     ['inputs', 'configurations'],
     'shapes, latent sizes, models, data types, sequences of construction',
     'Tests construct a few fixed machines.',
     [MA], ['add_matrix', 'add_layer', 'MachineMatrix.__init__'],
     'exhaustive enumeration of construction sequences, exact distribution '
     'of initial values',
     'Complete within the bounds.',
     ['attributes of machine, layers and matrices'])
prop('C24', 'Held-out accuracy is computed on the held-out cells only',
     'The held-out prediction experiment trains on the training data only, '
     'with the requested model, size, initial lambda and annealing, and '
     'reports exactly the fraction of held-out cells whose prediction by '
     'the posterior mean output is the datum, also for models with inverted '
     'data. The grid search runs it exactly once for every configuration, all '
     'with one split, and returns the results in the order of the '
     'configurations, in whatever order the workers finish.',
     ['inputs', 'configurations', 'histories', 'schedules'],
     'models, data, masks, posterior samples, orders of the workers',
     'Not tested at all.',
     [EX], ['LOM_predictive', 'LOM_hyperparms_parallel_gridsearch',
            'parallel_function'],
     'exhaustive enumeration of data, masks and posteriors with scripted '
     'inference',
     'All data of small shapes for all 36 models.',
     ['returned accuracy'])
prop('C25', 'Generators of synthetic data have the documented properties',
     'Random matrices are independent +-1 with the requested probability of '
     'ones, the Boolean product generator returns exactly the Boolean '
     'product of the factors it returns, which have no column whose ones '
     'are contained in those of another (every pair of such factors can '
     'occur), random tensors are the Boolean product of their factors with the requested expected density, and '
     'the reconstruction of a tensor '
     'accepts binary and sign coding alike.',
     ['inputs'],
     'all matrices of small shapes, all random outcomes',
     'Used to make data for tests, never tested.',
     [AU, EX], ['generate_orm_product', 'all_columsn_are_disjoint',
                'random_machine_matrix', 'tensorm_reconstruct'],
     'exhaustive enumeration of matrices and random outcomes',
     'Complete within the bounds.', ['returned arrays'])
prop('C26', 'Area under the ROC curve of exactly the held-out entries',
     'For fully observed data, held-out entries and predictions, the '
     'reported area under the ROC curve is the fraction of pairs of a '
     'held-out one and a held-out zero in which the one has the higher '
     'prediction (ties count half), whatever the predictions of the other '
     'entries, the coding of the data and the split.',
     ['inputs'],
     'all matrices, held-out sets and orders of predictions up to a size, '
     'all outcomes of the split',
     'Never called by a test; a small change of the selected entries still '
     'gives plausible values.',
     [AU], ['get_roc_auc', 'split_test_train'],
     'exhaustive enumeration of held-out sets and orders of predictions',
     'Complete within the bounds; sklearn is part of what is executed.',
     ['get_roc_auc(data, data_train, prediction)'])
prop('C27', 'Helper functions compute what they document',
     'The intersection of data frames has exactly the joint rows and columns '
     'in one order with the values of each frame; unique entries keep their '
     'order and centers of labels are at the mean index; log-odds of '
     'successive binomial and beta-binomial counts, the logistic functions '
     '(with and without scipy), the coding of binary data and the '
     'convergence of a trace follow their definitions; dbtf_reconstruct '
     'passes exactly the ones of a tensor, its size and the parameters to '
     'the external program and returns exactly its factors and their '
     'product.',
     ['inputs', 'configurations'],
     'all small frames, lists, matrices, traces, tensors and factors',
     'None of these helpers is called by a test with more than one input.',
     [AU, EX], ['intersect_dataframes', 'unique_ordered',
                'find_centers_of_ordered_list', 'compute_bp', 'compute_bbp',
                'check_binary_coding', 'check_convergence_single_trace',
                'logsumexp', 'dbtf_reconstruct'],
     'exhaustive enumeration of inputs, stand-in for the external program',
     'Complete within the bounds; the external program is a stand-in.',
     ['returned values', 'files passed to dbtf'])

prop('C28', 'Figures show what was inferred',
     'The image drawn by plot_matrix and plot_matrix_ax holds exactly the '
     'probabilities of the given matrix (entries in -1..1 are rescaled when '
     'there are negative ones), on the requested scale, each row and column '
     'at its place, in the returned figure or the given axes, without '
     'changing the argument; show draws, for every history of samples, the '
     'posterior probabilities, the posterior mode or the current state of '
     'the matrix and rejects other techniques; figures drawn before do not '
     'change.',
     ['inputs', 'histories'],
     'all small matrices in every coding, all options, all short histories '
     'of samples',
     'Figures are never looked at by the tests.',
     [AU, MA], ['plot_matrix', 'plot_matrix_ax', 'show'],
     'exhaustive enumeration of matrices and histories, comparison of the '
     'drawn image (and, for a part, of the rendered pixels)',
     'Complete within the bounds; matplotlib is trusted.',
     ['image data and limits of the axes', 'rendered pixels'])

prop('C29', 'Every sequence of documented steps leaves a valid machine',
     'After every sequence of documented steps (settings within their range, '
     'new data, fixing, clean-up, further layers and matrices, inference) on '
     'a machine of any model, the next call of inference and every output '
     'technique run without an error, and the machine is valid: its layers '
     'and members are those that were added, shapes of factors, fixed '
     'entries and samples agree with each other, factors and samples are '
     '+-1, thresholds 1..5, lambda is a number of the right shape, data and '
     'fixed values are unchanged, the requested number of samples is '
     'recorded for exactly the free members, and all outputs are '
     'probabilities.',
     ['histories', 'configurations'],
     'all sequences of steps up to a depth, for all models',
     'Tests run a handful of workflows with ordinary settings.',
     [MA, AU, MW, LW, MU, EX],
     ['Machine.infer', 'burn_in', 'add_layer', 'clean_up_codes',
      'MachineLayer.output', 'get_sampling_fct', 'get_update_fct'],
     'explicit-state exploration of all sequences of steps up to a depth on '
     'the real code, invariants after every step',
     'Complete within the bounds, under two fixed tables of random outcomes.',
     ['attributes of machine, layers and matrices', 'outputs', 'exceptions'])

NOT_APPLICABLE = []


def find(path, name):
    """line of a function"""
    src = open(os.path.join('/repo', path)).read().split('\n')
    for i, line in enumerate(src):
        if re.match(r'\s*(def|class) %s\b' % re.escape(name), line):
            return '%s:%d' % (path, i + 1)


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            mech = []
            for m in p['mechanism']:
                where = None
                for path in p['files']:
                    where = where or find(path, m)
                mech.append(dict(name=m, where=where or p['files'][0]))
            f.write(json.dumps(dict(
                id=p['id'], title=p['title'], statement=p['statement'],
                quantifier=dict(over=p['over'], text=p['text']),
                why_tests_cant=p['why'],
                anchors=dict(files=p['files'], mechanism=mech,
                             observe_at=p['observe'], hook_needed=None)))
                + '\n')
    checks = []
    na = list(NOT_APPLICABLE)
    for p in P:
        path = os.path.join(V, 'mc', 'checks', p['id'].lower() + '.py')
        if not os.path.exists(path):
            if p['id'] not in [x['property'] for x in na]:
                na.append(dict(property=p['id'], reason='no check yet'))
            continue
        level = re.search(r"^LEVEL = '(\w+)'", open(path).read(), re.M)[1]
        checks.append(dict(
            property=p['id'], quick_cmd='./run %s --tier quick' % p['id'],
            thorough_cmd='./run %s --tier thorough' % p['id'],
            technique='model checking: ' + p['technique'], level=level,
            level_note=p['note'] + TRUST))
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(dict(
            version=1,
            setup_cmd='/opt/venv/bin/python -c "import numpy, numba, scipy"',
            checks=checks, not_applicable=na,
            notes='No hooks in /repo are needed: the checks import the '
            'working tree and replace the random number generators from '
            'outside.'), f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
