#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the wording)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=['include/dcgp/' + f if not f.startswith('dcgpy') else f for f in files],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe)))

p('C01', 'Evaluating a CGP gives exactly the value of the program its chromosome encodes',
  'For every chromosome, the value a plain, weighted or ANN expression returns at a point (doubles, gduals or vectorized gduals, including ephemeral constants, weights and biases) is, up to rounding, the value of the computation graph encoded by that chromosome with each node applying its selected kernel to the (weighted, biased) values of the nodes it is connected to. '
  'This stays true after any sequence of mutations, chromosome, function-gene, constant, weight, bias and output-function changes, copies and moves; a phenotype correction set on a plain expression is applied to that same value, and unsetting it restores it. '
  'A point of the wrong length is rejected with an exception.',
  ['inputs', 'programs', 'histories', 'configurations'],
  'all grid sizes, levels-back, per-column arities, kernel sets, chromosomes, weights, biases, constants and points, after any history of API calls',
  'The tests evaluate a few dozen fixed chromosomes at integer points; they say nothing about other topologies, non-uniform arities, or state left behind by histories of mutations.',
  ['expression.hpp', 'expression_weighted.hpp', 'expression_ann.hpp', 'kernel_set.hpp'],
  [('node by node evaluation in active order', 'include/dcgp/expression.hpp: call_operator_impl'),
   ('weighted / ANN evaluation', 'include/dcgp/expression_weighted.hpp, include/dcgp/expression_ann.hpp: operator(), fill_nodes'),
   ('gene position table', 'include/dcgp/expression.hpp: init_bounds_and_chromosome')],
  ['operator()(vector<T>)', 'set_phenotype_correction', 'set/set_from_range/set_f_gene/mutate*'])
p('C02', 'Active nodes and genes are exactly what the outputs depend on',
  'At all times the reported active nodes are exactly the nodes reachable from the output genes, in increasing order without duplicates, and the reported active genes are exactly the genes of the active non-input nodes plus all output genes (membership queries and the ANN count of active weights agree with them). '
  'Changing any inactive gene (or, for weighted and ANN expressions, a weight or bias of an inactive node) never changes the value of the expression, numeric or symbolic.',
  ['inputs', 'programs', 'histories', 'configurations'],
  'all expressions and all histories of operations, including rejected calls',
  'Unit tests compare active sets for a handful of chromosomes; the sets are cached state that any operation may forget to refresh.',
  ['expression.hpp', 'expression_ann.hpp'],
  [('active set recomputation after each change', 'include/dcgp/expression.hpp: update_data_structures'),
   ('active weights', 'include/dcgp/expression_ann.hpp: n_active_weights')],
  ['get_active_nodes', 'get_active_genes', 'is_active_node', 'is_active_gene', 'n_active_weights'])
p('C03', 'Chromosomes always stay valid and each mutation changes only what it promises',
  'Gene bounds are exactly those implied by the grid, arities and levels-back, and every chromosome an expression ever holds, from construction on, respects them. '
  'Each mutation operator changes only genes of the kind it names (the given indexes; inactive genes; active genes; active function genes; active connection genes; output genes), at most as many as requested, always to a different admissible value when it changes one gene, and leaves constants, weights and biases untouched; asking for zero mutations changes nothing. '
  'Every gene of the promised kind and every admissible alternative value is reachable by its operator, and seeding makes the sequence of mutations reproducible.',
  ['inputs', 'programs', 'histories', 'configurations'],
  'all configurations, all operators, counts and index lists, after any history',
  'Mutations are random: a test samples a few of them and cannot exclude a stray gene, a bound off by one at some level-back or a value that can never be chosen.',
  ['expression.hpp', 'expression_ann.hpp', 'expression_weighted.hpp'],
  [('bounds', 'include/dcgp/expression.hpp: init_bounds_and_chromosome'),
   ('mutation operators', 'include/dcgp/expression.hpp: mutate, mutate_random, mutate_inactive, mutate_active, mutate_active_fgene, mutate_active_cgene, mutate_ogene')],
  ['get', 'get_lb', 'get_ub', 'mutate*', 'seed'])
p('C04', 'Invalid requests are rejected with an exception and leave the object unchanged',
  'Constructors and methods of expressions, symbolic regression problems, kernel sets and evolutionary algorithms reject arguments outside their documented domain (zero sizes, arities of the wrong length, out-of-bounds or wrong-length chromosomes, indexes, weights, biases, constants, unknown kernel or loss names, mismatched data and labels, out-of-range mutation counts, tolerances or learning rates, unsuitable kernels for a neural network) with an exception rather than accepting them. '
  'After a rejected call the object is observably the same as before it and still usable.',
  ['inputs', 'histories', 'configurations'],
  'all invalid arguments of all entry points, on objects with any history',
  'Tests try a few invalid arguments and only look at the exception, never at the state left behind.',
  ['expression.hpp', 'expression_weighted.hpp', 'expression_ann.hpp', 'kernel_set.hpp', 'symbolic_regression.hpp', 'algorithms/es4cgp.hpp', 'algorithms/gd4cgp.hpp', 'algorithms/moes4cgp.hpp', 'algorithms/mes4cgp.hpp', 'algorithms/momes4cgp.hpp'],
  [('sanity checks', 'include/dcgp/expression.hpp: sanity_checks, check_cgp_encoding'),
   ('argument checks before any change', 'setters and constructors of the listed files')],
  ['constructors', 'setters', 'mutate', 'loss', 'sgd', 'evolve constructors'])
p('C05', 'Taylor expansions through an expression are the true derivatives',
  'Evaluating a plain or weighted expression on generalized dual numbers of order up to three, in its inputs, its ephemeral constants or its weights, gives every mixed partial derivative of the encoded program up to that order, wherever the program is smooth, for scalar and for vectorized duals alike. '
  'The constant terms equal the value obtained with doubles.',
  ['inputs', 'programs', 'configurations'],
  'all programs over the differentiable kernels, all smooth points, all choices of differentiation variables, orders 0 to 3',
  'Tests differentiate a few fixed formulas; branches of piecewise kernels and mixed batches are not reached.',
  ['wrapped_functions.hpp', 'expression.hpp', 'expression_weighted.hpp', 'kernel_set.hpp'],
  [('kernels templated on the dual type', 'include/dcgp/wrapped_functions.hpp')],
  ['operator()(vector<gdual>)'])
p('C06', 'Backpropagation through a dCGP-ANN returns the true gradient of the loss',
  'For every topology, weights, biases, data point or data set and loss type, the gradient with respect to weights and biases reported by an ANN expression is the derivative of the loss it reports, wherever that loss is differentiable, and entries of inactive nodes are zero. '
  'The loss returned with the gradient equals the loss computed on its own, the value on a data set is the average over its points, and the result does not depend on the requested degree of parallelism.',
  ['inputs', 'programs', 'configurations', 'schedules'],
  'all ANN topologies (shared nodes, outputs read from inputs, outputs sharing a node), all activation functions, all points, all batch sizes and admissible parallel values',
  'Tests compare with finite differences for a few random networks with low accuracy and only some activation functions.',
  ['expression_ann.hpp'],
  [('forward pass recording activations and derivatives', 'include/dcgp/expression_ann.hpp: fill_nodes'),
   ('backward pass', 'include/dcgp/expression_ann.hpp: d_loss, update_data_structures (connected nodes)')],
  ['d_loss', 'loss'])
p('C07', 'Stochastic gradient descent performs the documented epoch over the data',
  'One pass of SGD processes every data point exactly once, in consecutive mini-batches of the requested size (last one possibly smaller) after one reordering that keeps each input with its label, moving weights and biases by minus the learning rate times the mini-batch average gradient, and returns the average over the epoch of the loss of each mini-batch taken at the parameters used for it. '
  'It never changes the chromosome or the parameters of inactive nodes, does not reorder the data when shuffling is off, and an empty mini-batch size or mismatched data is rejected leaving weights, biases and data unchanged.',
  ['inputs', 'histories', 'configurations', 'schedules'],
  'all networks, data sets, learning rates, batch sizes (dividing the data size or not), losses and admissible parallel values',
  'The test only checks that the loss decreases on one data set.',
  ['expression_ann.hpp'],
  [('epoch loop', 'include/dcgp/expression_ann.hpp: sgd, update_weights')],
  ['sgd', 'get_weights', 'get_biases'])
p('C08', 'The loss of an expression is the documented average, however it is computed',
  'The loss of any expression on a point is the mean squared error or the softmax cross entropy of its outputs against the label, and on a data set the average over points, for doubles and gduals. '
  'It does not depend on the requested degree of parallelism beyond rounding, is finite for every finite output vector whose squared error is representable (no overflow or underflow of the softmax), and it does not modify the expression.',
  ['inputs', 'configurations', 'schedules'],
  'all expressions, data sets, labels, both losses, all admissible parallel values',
  'Tests check one expression on one small data set, with outputs of moderate size.',
  ['expression.hpp', 'expression_weighted.hpp', 'expression_ann.hpp'],
  [('loss', 'include/dcgp/expression.hpp: loss (three overloads)')],
  ['loss'])
p('C09', 'Concurrent use is free of data races and parallel results equal serial ones',
  'Loss, gradient and training computations that split a data set among threads contain no data race and give, up to rounding, the serial result whatever the schedule. '
  'Distinct threads may concurrently evaluate, differentiate, mutate and optimise their own copies of the same expression, kernels, algorithm or symbolic regression problem without a data race, in so far as the advertised thread safety is at least basic, and obtain the same results as alone; so may threads that only evaluate and query one constant expression; an object advertises only the thread safety its components support (a kernel, problem or expression made of python-like unsafe callables says so).',
  ['schedules', 'inputs', 'configurations'],
  'all interleavings of worker threads, all degrees of parallelism, all objects obtained by copying',
  'Tests run once on one schedule without a race detector and compare only final values.',
  ['expression.hpp', 'expression_ann.hpp', 'symbolic_regression.hpp', 'function.hpp', 'kernel.hpp', 'rng.hpp'],
  [('per task accumulation under a spin mutex', 'include/dcgp/expression.hpp: loss; include/dcgp/expression_ann.hpp: d_loss'),
   ('thread safety levels', 'include/dcgp/function.hpp, kernel.hpp, symbolic_regression.hpp')],
  ['loss', 'd_loss', 'sgd', 'fitness', 'get_thread_safety'])
p('C10', 'The global random device is reproducible and can be shared by threads',
  'After setting its seed the global random device yields one fixed sequence of numbers determined by that seed alone. '
  'When several threads draw from it concurrently, without any external locking, the numbers drawn overall are exactly an interleaving of that sequence: none is lost, duplicated or altered, each thread sees a subsequence in order, and no data race occurs, also while other threads reseed it.',
  ['schedules', 'inputs', 'histories'],
  'all seeds, numbers of threads, draw counts and interleavings',
  'The existing test draws from two threads without a race detector or any statement on the resulting sequence.',
  ['rng.hpp'],
  [('mutex protected engine', 'include/dcgp/rng.hpp')],
  ['random_device::next', 'random_device::set_seed'])
p('C11', 'Saving and restoring an object preserves all of its behaviour',
  'Any expression (plain, weighted, ANN), kernel, symbolic regression problem, algorithm or type-erased function, in any state reached by use, restored from a serialized archive (binary; text too when the state is finite) behaves as the original: same values, bounds, active sets, parameters, symbolic form, derivatives, settings, advertised thread safety and logs, and the same results for any subsequent sequence of operations, random ones included. '
  'Restoring into an object that already holds another state leaves nothing of that state behind.',
  ['histories', 'inputs', 'configurations'],
  'all serializable objects after any history, with all subsequent operations',
  'Tests serialize freshly built objects and compare a few printed values; a member forgotten by the archive shows only in later behaviour.',
  ['expression.hpp', 'expression_weighted.hpp', 'expression_ann.hpp', 'kernel.hpp', 'function.hpp', 'symbolic_regression.hpp', 'algorithms/es4cgp.hpp', 'algorithms/gd4cgp.hpp', 'algorithms/moes4cgp.hpp', 'algorithms/mes4cgp.hpp', 'algorithms/momes4cgp.hpp', 'wrapped_functions_s11n_implement.hpp'],
  [('serialize members', 'serialize() of each class')],
  ['boost archives'])
p('C12', 'Copies are independent values and equal seeds give equal objects',
  'A copy or a moved-to object (expression of any kind, kernel, symbolic regression problem, algorithm) behaves exactly as the source did, random behaviour included, and afterwards changes to either never show in the other; assignment over an object of a different shape, and self-assignment, behave alike. '
  'Two objects built with the same arguments and seed, and driven by the same calls, remain identical forever; reseeding an expression makes its subsequent random behaviour depend on that seed only.',
  ['histories', 'inputs', 'configurations'],
  'all objects, all histories before and after the copy',
  'Tests copy only incidentally and do not look for shared state.',
  ['expression.hpp', 'expression_weighted.hpp', 'expression_ann.hpp', 'kernel.hpp', 'function.hpp', 'symbolic_regression.hpp'],
  [('value members and cloning of type-erased functions', 'include/dcgp/function.hpp: clone; copy/move members of each class')],
  ['copy/move constructors and assignments', 'seed'])
p('C13', 'A type-erased function behaves exactly as the callable it wraps',
  'A type-erased function built from any callable (function pointer, lambda, functor, std::function, with or without reference, const or rvalue arguments, void or not) forwards the arguments and the return value unchanged, can be asked for its exact contained type, has independent value semantics under copy, move, swap-like reassignment and self-assignment, and reports the thread safety declared by the callable (basic by default). '
  'A function emptied by a move can be destroyed and assigned again; a default constructed one holds a null function pointer and throws when called, as does any function holding a null pointer or an empty std::function. A copy that fails because the callable throws while being copied changes neither function.',
  ['inputs', 'histories', 'programs'],
  'all kinds of callables, all sequences of construction, assignment, move, extraction and call',
  'Tests exercise each operation once on a few callables.',
  ['function.hpp'],
  [('inner function wrapper', 'include/dcgp/function.hpp: function_inner, function')],
  ['function::operator()', 'extract', 'is', 'get_thread_safety'])
p('C14', 'Each library kernel computes its documented function at every arity',
  'Every kernel of the kernel set, for every number of arguments from one up, computes its documented formula on doubles (and the same function on scalar and vectorized gduals), including at special values such as zeros, infinities and protected-division and protected-root cases. '
  'A kernel set contains exactly the kernels requested in the order requested, under their names, rejects unknown names, and accepts user kernels.',
  ['inputs', 'configurations'],
  'all kernels, arities, argument values and number types; all sequences of kernel set insertions',
  'Tests check each kernel on one or two argument lists.',
  ['wrapped_functions.hpp', 'kernel_set.hpp', 'kernel.hpp'],
  [('kernel functors', 'include/dcgp/wrapped_functions.hpp'), ('name table', 'include/dcgp/kernel_set.hpp: push_back')],
  ['kernel::operator()', 'kernel_set'])
p('C15', 'The symbolic form of an expression denotes the function it evaluates',
  'The string a kernel or an expression (plain, weighted, ANN; constants by name) produces for given variable names parses, under ordinary operator precedence, into a formula whose value at every point equals the numeric evaluation (protected divisions print as plain divisions and agree where the divisor is not zero), and mentions only names of active inputs, constants, weights and biases. '
  'The wrong number of names is rejected; the prettified form and the symbolic form of a symbolic regression model denote the same function.',
  ['inputs', 'programs', 'histories'],
  'all programs, kernels, arities, variable names and points, after any history',
  'Tests compare literal strings for a few shallow expressions, never the meaning of nested ones.',
  ['expression.hpp', 'expression_weighted.hpp', 'expression_ann.hpp', 'wrapped_functions.hpp', 'symbolic_regression.hpp', 'symengine.hpp'],
  [('string kernels', 'include/dcgp/wrapped_functions.hpp: print_my_*'), ('symbolic evaluation', 'operator()(vector<string>) of each expression class; symbolic_regression pretty/prettier')],
  ['operator()(vector<string>)', 'pretty', 'prettier'])
p('C16', 'Symbolic regression fitness is the exact, history-independent model loss',
  'For every decision vector the fitness of a symbolic regression problem is the loss of the encoded model on the data with the decision vector\'s constants (plus, for multi-objective problems, the model complexity: its number of active genes), and predictions are the model\'s outputs; integer part, bounds, constants, dimensions and objectives are as the problem was configured, and the reported bounds accept exactly valid models. '
  'Both depend on the decision vector, the data and the current phenotype correction only: no sequence of previous fitness, gradient, prediction or printing calls, copies or parallel settings changes them.',
  ['inputs', 'histories', 'configurations'],
  'all data sets, configurations, decision vectors and interleavings of calls',
  'Tests evaluate a few decision vectors in sequence; the problem keeps a cache of the last evaluation whose stale reuse depends on history.',
  ['symbolic_regression.hpp'],
  [('fitness and cache', 'include/dcgp/problems/symbolic_regression.hpp: fitness, cache_fitness')],
  ['fitness', 'predict', 'get_bounds', 'get_nobj', 'get_nix'])
p('C17', 'Symbolic regression derivatives are those of the reported fitness',
  'The gradient and hessians reported by a symbolic regression problem are the first and second derivatives of the loss with respect to the constants, for any number of constants, laid out exactly as the sparsity patterns it advertises, wherever the loss is smooth. '
  'They do not depend on previous calls, and asking for them does not change the fitness.',
  ['inputs', 'histories', 'configurations'],
  'all models with one or more constants, decision vectors, data sets and call orders',
  'Tests check a model with one or two constants at one point.',
  ['symbolic_regression.hpp'],
  [('gradient and hessians through vectorized gduals', 'include/dcgp/problems/symbolic_regression.hpp: gradient, hessians, sparsities')],
  ['gradient', 'hessians', 'gradient_sparsity', 'hessians_sparsity'])
p('C18', 'Single objective evolution never loses ground and only reports evaluated models',
  'Running the (memetic) evolutionary strategies on a population never makes its best fitness worse and keeps the best model met during the run in the final population. It leaves every individual with integer genes within bounds, paired with its own true fitness, and either originally in the population or evaluated during the run; every model evaluated differs from a best individual of its time by at most the allowed number of integer genes (its active genes, in the strategies that mutate active genes only). '
  'Zero generations change nothing; the run stops early exactly when the best fitness gets below the tolerance, uses no more than the budgeted generations, and unsuitable problems or too small populations are rejected with the population untouched.',
  ['inputs', 'histories', 'configurations'],
  'all populations, data sets, seeds, generation counts, mutation bounds and tolerances',
  'Tests run each algorithm a few times and look at rejections only.',
  ['algorithms/es4cgp.hpp', 'algorithms/mes4cgp.hpp'],
  [('elitist loop', 'include/dcgp/algorithms/es4cgp.hpp, mes4cgp.hpp: evolve')],
  ['evolve', 'get_log'])
p('C19', 'Evolution is reproducible from seeds and independent of observation',
  'Given the same problem, initial population and seed every algorithm yields the same final population and log, whether verbose or not, whether the algorithm object is fresh, copied or restored from an archive, and whether fitness is computed serially or through a batch evaluator. '
  'Setting the seed of an already used algorithm makes it behave as a new one with that seed.',
  ['inputs', 'histories', 'configurations', 'schedules'],
  'all algorithms, problems, seeds, verbosities, batch evaluators and previous uses',
  'No test compares two runs.',
  ['algorithms/es4cgp.hpp', 'algorithms/mes4cgp.hpp', 'algorithms/moes4cgp.hpp', 'algorithms/momes4cgp.hpp', 'algorithms/gd4cgp.hpp'],
  [('own random engine', 'm_e / m_seed of each algorithm')],
  ['evolve', 'set_seed', 'set_verbosity', 'set_bfe'])
p('C20', 'Multi-objective evolution is elitist and only reports evaluated models',
  'After running the multi-objective strategies every individual of the population is admissible, has its own true fitness, and was in the initial population or evaluated during the run. '
  'Each generation keeps, out of the parents and their mutants, the individuals of the best non dominated fronts (models whose loss is not finite count as the worst), the front that does not fit being thinned to its most isolated members; in particular the non dominated models met so far are never dropped for dominated ones, and the best loss and best complexity never get worse (for populations of at least four). '
  'In the memetic strategy individuals with duplicated fitness are kept only as needed to fill the population. Zero generations change nothing and misuse is rejected with the population untouched.',
  ['inputs', 'histories', 'configurations'],
  'all populations, problems, seeds, generation counts and mutation bounds',
  'Tests look at rejections and run the algorithms a few times without looking at the populations.',
  ['algorithms/moes4cgp.hpp', 'algorithms/momes4cgp.hpp'],
  [('non dominated selection', 'include/dcgp/algorithms/moes4cgp.hpp, momes4cgp.hpp: evolve')],
  ['evolve', 'get_log'])
p('C21', 'Gradient descent on constants never worsens and only touches the constants',
  'Running gradient descent on a population changes at most one individual, the one the selection and replacement policies designate, leaving the integer genes of the selected model untouched and pairing the result with its own true fitness, which is never worse than that of the selected model; with the default policies the best fitness never gets worse, and nothing happens if the selected individual has a non finite fitness. '
  'Each step follows the normalised negative gradient at the current point with the current learning rate, which grows or shrinks by the documented factors on success or failure and stays above the documented minimum, and the number of steps is bounded by the budget.',
  ['inputs', 'histories', 'configurations'],
  'all problems with constants, populations, learning rates and selection and replacement policies',
  'Tests only check rejections and one run.',
  ['algorithms/gd4cgp.hpp'],
  [('adaptive step loop', 'include/dcgp/algorithms/gd4cgp.hpp: evolve')],
  ['evolve', 'get_log'])
p('C22', 'Logs tell the truth about the run and verbosity zero is silent',
  'Every line an algorithm logs carries the generation, function evaluation count, best fitness, constants, model (or front size) that the run really had at that moment; lines appear at the requested frequency, evaluation counts never decrease, and running again starts a new log, also when the new run ends at once because no member has a finite loss. '
  'With verbosity zero nothing is logged and nothing is printed.',
  ['inputs', 'histories', 'configurations'],
  'all algorithms, problems, seeds and verbosities',
  'No test looks at the contents of a log.',
  ['algorithms/es4cgp.hpp', 'algorithms/mes4cgp.hpp', 'algorithms/moes4cgp.hpp', 'algorithms/momes4cgp.hpp', 'algorithms/gd4cgp.hpp'],
  [('log lines', 'include/dcgp/algorithms/*.hpp: log_single_line, evolve')],
  ['get_log', 'standard output'])
p('C23', 'The benchmark data sets are the published problems',
  'Every generated gym data set has the documented number of points, input and output dimensions and range, with labels equal to the documented formula at its points, and the NIST and other tabulated data sets agree with their published values. '
  'Generation is deterministic, replaces whatever the destination held, and always leaves one label per point.',
  ['inputs', 'histories'],
  'all generators, previous contents of the destination and orders of calls',
  'The test checks that sizes of points and labels agree.',
  ['gym.hpp', 'nist_data.hpp', 'misc_data.hpp'],
  [('generators', 'include/dcgp/gym.hpp')],
  ['gym::generate_*'])
p('C24', 'No use of the public interface corrupts memory or has undefined behaviour',
  'No sequence of calls on expressions, kernels, functions, symbolic regression problems, data generators and algorithms, with valid or invalid arguments, reads or writes outside its objects, uses dead objects, leaks, overflows signed arithmetic or otherwise has undefined behaviour, terminates the process or fails to return: each call returns or throws a documented exception. '
  'This covers extreme but admissible sizes (single nodes, deep or wide grids, large levels-back, arity one or large), degenerate data and non-finite numbers.',
  ['inputs', 'histories', 'configurations'],
  'all call sequences over the public interface (kernels take at least one argument; moved-from objects are only assigned or destroyed)',
  'Tests run without sanitizers on well behaved arguments.',
  ['expression.hpp', 'expression_weighted.hpp', 'expression_ann.hpp', 'kernel.hpp', 'function.hpp', 'kernel_set.hpp', 'symbolic_regression.hpp', 'algorithms/es4cgp.hpp', 'algorithms/gd4cgp.hpp', 'algorithms/moes4cgp.hpp', 'algorithms/mes4cgp.hpp', 'algorithms/momes4cgp.hpp'],
  [('index computations guarded by argument checks', 'all headers')],
  ['AddressSanitizer and UndefinedBehaviorSanitizer reports', 'process exit'])
p('C25', 'Constants are learned by the documented steps, or not touched at all',
  'In the memetic strategies the constants appearing in each mutant (those with a non-zero gradient) move by exactly one Newton step computed from that mutant\'s own gradient and hessian where the step is defined: with one such constant wherever its second derivative is finite and not zero, with more wherever the hessian is positive definite. They stay as they were where it is negative definite, or the derivatives are not finite; constants not appearing are kept, or redrawn within their bounds when the problem has several. The result competes with its own true fitness. '
  'In the evolutionary strategies constants are mutated only if their learning is enabled, otherwise every evaluated individual keeps its parent\'s constants.',
  ['inputs', 'histories', 'configurations'],
  'all problems with constants, populations and seeds',
  'No test observes the constants of the individuals evaluated during a run.',
  ['algorithms/es4cgp.hpp', 'algorithms/mes4cgp.hpp', 'algorithms/moes4cgp.hpp', 'algorithms/momes4cgp.hpp'],
  [('life long learning step', 'include/dcgp/algorithms/mes4cgp.hpp, momes4cgp.hpp: evolve'), ('mutation of constants', 'include/dcgp/algorithms/es4cgp.hpp, moes4cgp.hpp')],
  ['decision vectors passed to fitness, gradient and hessians'])
p('C27', 'What an object says about itself is true',
  'The printed form of an expression, kernel or kernel set, the extra information of a problem or algorithm, and every inspection method (sizes, bounds, arities, kernels, chromosome, active genes, constants and their names, weights, biases, settings, verbosity, seed, use of a batch evaluator) always describe the state the object is in: the construction arguments as changed by the calls made since, and by nothing else. '
  'Asking does not change the object, and an object held by a pagmo container says the same.',
  ['inputs', 'histories', 'configurations'],
  'all objects and all histories of setters, mutations, rejected calls, evaluations, evolutions, copies, moves and swaps',
  'The tests print objects but never read what is printed, and query a few getters right after construction.',
  ['expression.hpp', 'expression_weighted.hpp', 'expression_ann.hpp', 'kernel.hpp', 'kernel_set.hpp', 'symbolic_regression.hpp', 'algorithms/es4cgp.hpp', 'algorithms/gd4cgp.hpp', 'algorithms/moes4cgp.hpp', 'algorithms/mes4cgp.hpp', 'algorithms/momes4cgp.hpp'],
  [('streaming operators', 'include/dcgp/expression.hpp, expression_weighted.hpp, expression_ann.hpp, kernel.hpp, kernel_set.hpp: operator<<'),
   ('extra information', 'include/dcgp/problems/symbolic_regression.hpp, include/dcgp/algorithms/*.hpp: get_extra_info')],
  ['operator<<', 'get_extra_info', 'get_name', 'get_verbosity', 'get_seed', 'get_*'])
p('C28', 'Weights and biases belong to the connections and nodes they name',
  'In weighted expressions and networks the weight of input j of node i is the number that multiplies that connection, and the bias of a node the number added there, whichever accessor (by node and input, by index, all at once) wrote or reads it; a new object has unit weights and null biases, and a setter changes what it names and nothing else, neither genes nor other weights or biases, nor other objects. '
  'Randomising draws independent normal numbers of the mean and deviation requested, for the weights only or the biases only, the same ones for the same seed and others for another.',
  ['inputs', 'programs', 'histories', 'configurations'],
  'all grids and arities, all setters in any order interleaved with changes of the chromosome, all means, deviations and seeds',
  'Tests set a few weights on one grid of uniform arity and never look at random ones.',
  ['expression_weighted.hpp', 'expression_ann.hpp'],
  [('weights indexed by gene position', 'include/dcgp/expression_weighted.hpp, expression_ann.hpp: set_weight, get_weight, kernel_call'),
   ('random initialisation', 'include/dcgp/expression_ann.hpp: randomise_weights, randomise_biases')],
  ['set_weight(s)', 'get_weight(s)', 'set_bias(es)', 'get_bias(es)', 'randomise_weights', 'randomise_biases', 'operator()'])
p('C26', 'The Python bindings expose the same behaviour as the C++ library',
  'Every expression, kernel, problem and algorithm used from Python gives the results the C++ interface gives, and errors become Python exceptions.',
  ['inputs', 'histories'], 'all calls through the bindings', 'The Python tests cannot run here.',
  ['dcgpy/expose_expressions.hpp', 'dcgpy/expose_kernels.hpp', 'dcgpy/expose_symbolic_regression.hpp'],
  [('pybind11 exposition', 'dcgpy/*.cpp')], ['dcgpy module'])
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for q in P:
    q['anchors']['files'] = [f.replace('include/dcgp/symbolic_regression.hpp', 'include/dcgp/problems/symbolic_regression.hpp') for f in q['anchors']['files']]
    for f in q['anchors']['files']:
        assert os.path.exists('/repo/' + f), f
with open(os.path.join(root, 'properties.jsonl'), 'w') as o:
    for q in P: o.write(json.dumps(q) + '\n')
