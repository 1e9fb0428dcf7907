# Per property: drivers (source, variants: name -> (quick cases, thorough cases, shards)), rule of non-triviality.
REF = 'runtime monitor against an independent reference model on random and hostile workloads, with ASan+UBSan'
CHECKS = {
    'C01': dict(
        drivers=[dict(src='c01.cpp', variants={'asan': (400, 8000, 4), 'plain': (40000, 3000000, 8)})],
        rule='random class (plain, weighted, ANN; double, gdual, vectorized gdual), grid, arities, kernels, chromosome, constants, '
             'weights and biases, point, and a history of API operations, each evaluation compared with an independent reference '
             'interpreter; non-trivial: at least one finite output was judged well conditioned and compared',
        note='sampled programs and histories; values compared with an interpreter written from the documentation; assumes the AuDi stand-in behaves as AuDi',
        floor=5000),
    'C02': dict(
        drivers=[dict(src='c02.cpp', variants={'asan': (400, 8000, 4), 'plain': (40000, 2000000, 8)})],
        rule='random expression of each class driven through a history of valid and rejected operations; after each, the active sets are '
             'compared with an independent reachability computation and inactive genes, weights, biases and constants are changed; '
             'non-trivial: the expression had inactive genes or nodes',
        note='sampled expressions and histories; reachability recomputed from the public chromosome',
        floor=3000),
    'C03': dict(
        drivers=[dict(src='c03.cpp', variants={'asan': (400, 8000, 4), 'plain': (40000, 2000000, 8)})],
        rule='random expression, every mutation operator with random counts and indexes after a history of operations; each change is '
             'classified gene by gene; reachability of every gene and value of the promised kind is checked statistically on small '
             'grids; non-trivial: at least one gene changed',
        note='sampled; reachability is a statistical statement with a false alarm rate below 1e-9 per check',
        floor=3000),
    'C04': dict(
        drivers=[dict(src='c04.cpp', variants={'asan': (500, 10000, 4), 'plain': (40000, 2000000, 8)}),
                 dict(src='c04p.cpp', variants={'asan': (400, 8000, 4), 'plain': (8000, 400000, 8)})],
        rule='invalid constructor arguments and invalid calls on random expressions, symbolic regression problems and algorithms in random '
             'states: the call must throw and leave everything observable as it was; non-trivial: a call outside the documented domain was made',
        note='sampled invalid arguments of every documented kind',
        floor=5000),
    'C05': dict(
        drivers=[dict(src='c05.cpp', variants={'asan': (300, 6000, 4), 'plain': (40000, 2000000, 8)})],
        rule='random plain or weighted expression over scalar or vectorized duals of order one to three; all mixed partials compared with '
             'nested dual numbers; non-trivial: at least one well conditioned derivative compared away from kinks',
        note='derivatives computed through the AuDi stand-in (truncated Taylor arithmetic); dcgp\'s own kernels and evaluation are the code under test',
        floor=3000),
    'C06': dict(
        drivers=[dict(src='c06.cpp', variants={'asan': (300, 6000, 4), 'plain': (24000, 1500000, 8)})],
        rule='random ANN (every topology and kernel), data and loss; gradients compared with forward mode dual numbers through an independent '
             'evaluation; non-trivial: at least one non-zero gradient entry compared away from kinks',
        note='sampled networks; entries near non-differentiable points are not judged',
        floor=3000),
    'C07': dict(
        drivers=[dict(src='c07.cpp', variants={'asan': (300, 6000, 4), 'plain': (40000, 2000000, 8)})],
        rule='random ANN and data set; one epoch of SGD compared with an independent epoch over the reordering read from the data; '
             'non-trivial: the epoch had at least one mini-batch whose update was compared',
        note='sampled networks and data; the reordering is read back from the shuffled data',
        floor=3000),
    'C08': dict(
        drivers=[dict(src='c08.cpp', variants={'asan': (300, 6000, 4), 'plain': (40000, 2000000, 8)})],
        rule='random expression, point or data set, loss type and degree of parallelism, including outputs of extreme magnitude; compared '
             'with an independently computed loss; non-trivial: a finite loss was compared',
        note='sampled; parallel sums are compared within rounding',
        floor=3000),
    'C09': dict(
        drivers=[dict(src='c09.cpp', variants={'tsan': (1600, 60000, 4), 'plain': (8000, 400000, 8)})],
        technique='ThreadSanitizer with instrumented parallel loops and injected delays, plus comparison of concurrent with serial results',
        rule='losses, gradients and trainings split among threads; expressions, kernels, problems and algorithms used by several threads on '
             'their own copies (made before or inside the threads) and shared constant objects, results compared with those obtained alone; '
             'advertised thread safety compared with that of the parts; non-trivial: threads ran or a level other than the default was involved',
        note='schedules are sampled with injected delays (distinct completion orders counted in the evidence); TBB is replaced by plain threads under TSan',
        floor=1500),
    'C10': dict(
        drivers=[dict(src='c10.cpp', link=[('c10_tu.cpp', 'plain')], variants={'plain': (1200, 60000, 4)}),
                 dict(src='c10.cpp', link=[('c10_tu.cpp', 'tsan')], variants={'tsan': (1200, 60000, 4)})],
        technique='offline checker over recorded concurrent histories (exact interleaving of the seeded sequence), with ThreadSanitizer',
        rule='sequences drawn after a seeding, through every public route (two translation units, default seeded objects), and concurrent '
             'histories of draws and reseedings by 2 to 8 threads, every number placed in the sequence of its seeding; non-trivial: the '
             'threads really alternated (more switches than threads)',
        note='schedules are sampled; the history checker decides each recorded history exactly',
        floor=1000),
    'C11': dict(
        drivers=[dict(src='c11.cpp', link=[('impl.cpp', 'o0')], variants={'o0': (8000, 400000, 4)}),
                 dict(src='c11.cpp', link=[('impl.cpp', 'o0')], variants={'asan': (300, 8000, 2)}),
                 dict(src='c11p.cpp', link=[('impl.cpp', 'o0')], variants={'o0': (3000, 150000, 4)}),
                 dict(src='c11p.cpp', link=[('impl.cpp', 'o0')], variants={'asan': (200, 8000, 2)})],
        technique='runtime monitor: original and restored objects driven side by side through random histories, with ASan+UBSan',
        rule='expressions of every class and number type, kernels, kernel sets, type erased functions, symbolic regression problems and '
             'algorithms in states reached by random histories, saved to text and binary archives and restored into objects holding other '
             'states; original and restored object are then compared and driven by the same further calls; non-trivial: a round trip was compared',
        note='sampled states; Boost text archives cannot hold non-finite numbers, such states are saved as binary only',
        floor=3000),
    'C12': dict(
        drivers=[dict(src='c12.cpp', variants={'o0': (8000, 400000, 8)}), dict(src='c12.cpp', variants={'asan': (300, 8000, 4)})],
        rule='copies, assignments, moves and self assignments of expressions, problems and algorithms in random states; one of the two '
             'objects is then changed and the other must keep its behaviour; non-trivial: a copy was separated from a changed original',
        note='sampled states and operations',
        floor=2000),
    'C13': dict(
        drivers=[dict(src='c13.cpp', variants={'asan': (4000, 80000, 4), 'plain': (40000, 4000000, 8)})],
        rule='dcgp::function holding function pointers, lambdas, stateful and throwing callables: calls, copies, moves, swaps, extraction, '
             'emptiness and error reporting compared with a model of the held callable; non-trivial: the wrapper was called and compared',
        note='sampled callables, argument types and operation sequences',
        floor=3000),
    'C14': dict(
        drivers=[dict(src='c14.cpp', variants={'asan': (6000, 120000, 4), 'plain': (160000, 10000000, 8)})],
        rule='random kernel, arity 1 to 40 and arguments (ordinary, tiny, huge, exact sums at and around zero, a table of special values) on '
             'doubles, duals and vectorized duals, compared with the documented definition; random histories of kernel set operations '
             'compared with a model list; non-trivial: a well conditioned or exactly known value was compared',
        note='sampled arguments; special values are judged only where the definition has one limit; dual values go through the AuDi stand-in',
        floor=20000),
    'C15': dict(
        drivers=[dict(src='c15.cpp', variants={'asan': (600, 12000, 4), 'plain': (24000, 2000000, 8)})],
        rule='formulas printed by kernels, expressions of each class, duals and symbolic regression models after random histories, parsed '
             'by an independent parser and evaluated at random points; non-trivial: a well conditioned formula value was compared',
        note='sampled programs, names and points; formulas longer than 1500 terms are not printed; SymEngine is replaced by a stand-in that keeps the meaning',
        floor=5000),
    'C16': dict(
        drivers=[dict(src='c16.cpp', variants={'asan': (400, 8000, 4), 'plain': (16000, 1500000, 8)})],
        rule='random problem and a random interleaving of fitness, gradient, hessians, predict, printing, copies, batches, rejected vectors and '
             'corrections on similar decision vectors; every fitness and prediction compared with a reference model; non-trivial: a well '
             'conditioned fitness was compared',
        note='sampled problems and histories; last bits are not compared (the cached loss is computed in another order)',
        floor=5000),
    'C17': dict(
        drivers=[dict(src='c17.cpp', variants={'asan': (400, 8000, 4), 'plain': (24000, 1500000, 8)})],
        rule='random problem with 0 to 12 constants and a random history; every component of gradients and hessians compared with nested dual '
             'numbers through an independent evaluation; non-trivial: a non-zero derivative was compared',
        note='sampled problems and points; entries near kinks, protected divisions or non-finite nodes are not judged',
        floor=5000),
    'C18': dict(
        drivers=[dict(src='c18.cpp', variants={'asan': (300, 8000, 4), 'plain': (24000, 1500000, 8)})],
        technique='runtime monitor: recorded evaluations of the real run replayed and judged against the documented strategy, with ASan+UBSan',
        rule='random problem, population (duplicates, NaN losses, too small), strategy settings; every decision vector evaluated during the run is '
             'recorded by a wrapping problem, then selection, mutation, stopping and the final population are judged; non-trivial: the run evaluated new models',
        note='sampled problems, populations and settings; run observed through the problem interface only',
        floor=5000),
    'C19': dict(
        drivers=[dict(src='c19.cpp', link=[('impl.cpp', 'o0')], variants={'o0': (2000, 150000, 8)}),
                 dict(src='c19.cpp', link=[('impl.cpp', 'o0')], variants={'asan': (100, 6000, 4)})],
        technique='runtime monitor: the same run repeated in many ways and compared bit by bit, with ASan+UBSan',
        rule='the same problem, initial population and seed evolved by fresh, copied, type erased, restored, reseeded algorithms, verbose or not, '
             'in other threads, in islands, with batch evaluators of different order; populations, counters and logs compared bit by bit; '
             'non-trivial: the run changed the population',
        note='sampled problems, populations and settings',
        floor=1000),
    'C20': dict(
        drivers=[dict(src='c20.cpp', variants={'asan': (300, 8000, 4), 'plain': (24000, 1500000, 8)})],
        technique='runtime monitor: recorded evaluations of the real run replayed and judged against the documented selection, with ASan+UBSan',
        rule='random two-objective problem, population (duplicates, NaN losses) and settings; the merged pool of every generation is rebuilt from the '
             'recorded evaluations and the surviving models compared with an independent non dominated sorting; non-trivial: the run evaluated new models',
        note='sampled problems, populations and settings; ties of the crowding distance are accepted either way',
        floor=5000),
    'C21': dict(
        drivers=[dict(src='c21.cpp', variants={'asan': (300, 8000, 4), 'plain': (40000, 3000000, 8)})],
        technique='runtime monitor: recorded evaluations and gradients of the real run compared with an independent gradient descent, with ASan+UBSan',
        rule='random problem with constants, population and settings; the recorded points are compared step by step with an independent '
             'descent; non-trivial: at least one step was taken',
        note='sampled problems, populations and settings',
        floor=5000),
    'C22': dict(
        drivers=[dict(src='c22.cpp', variants={'asan': (240, 6000, 4), 'plain': (16000, 1000000, 8)})],
        technique='runtime monitor: logs and prints of the real run compared with its recorded evaluations, with ASan+UBSan',
        rule='each algorithm run at each verbosity; every line of the log compared with the state rebuilt from the recorded evaluations, printed '
             'lines compared with the log, silent runs must print and log nothing; non-trivial: at least one line was compared',
        note='sampled problems, populations and settings',
        floor=3000),
    'C25': dict(
        drivers=[dict(src='c25.cpp', variants={'asan': (240, 6000, 4), 'plain': (16000, 1000000, 8)})],
        technique='runtime monitor: recorded gradients and hessians of the real run compared with an independent Newton step, with ASan+UBSan',
        rule='each (memetic) strategy on random problems with constants; from the recorded derivatives of every mutant the documented step is '
             'recomputed and the constants next evaluated compared with it; non-trivial: constants of a mutant were judged',
        note='sampled; indefinite hessians are accepted with the step or unchanged',
        floor=3000),
    'C23': dict(
        drivers=[dict(src='c23.cpp', variants={'asan': (400, 8000, 2), 'plain': (20000, 1000000, 4), 'tsan': (200, 4000, 1)})],
        technique='runtime monitor of the generated data against the published formulas and certified fits, with ASan, UBSan and TSan',
        rule='the 24 generators called in random order and from several threads into destinations in random states; every generated set is compared '
             'point by point with the published formula, or through the certified residual of the NIST fit; all cases are non-trivial',
        note='the luca1 table has no published fit: its sums are compared with those distributed',
        floor=5000),
    'C27': dict(
        drivers=[dict(src='c27.cpp', variants={'asan': (400, 10000, 4), 'plain': (24000, 2000000, 8)})],
        technique='runtime monitor: every statement an object makes about itself compared with a model of its history, with ASan+UBSan',
        rule='expressions of each class, kernels, kernel sets, problems and algorithms with random settings and histories (setters, mutations, '
             'rejected calls, evaluations, evolutions, copies, swaps, pagmo containers); each labelled line of the printed description and each '
             'inspection method compared with what the history implies; non-trivial: at least one statement was found and judged',
        note='sampled objects and histories; descriptions show at most five entries of a list and six digits; a line that is not printed is not judged',
        floor=3000),
    'C28': dict(
        drivers=[dict(src='c28.cpp', variants={'asan': (400, 10000, 4), 'plain': (24000, 2000000, 8)})],
        rule='weighted expressions (doubles and duals) and networks, some with thousands of weights, driven by random setters, mutations, '
             'swaps and randomisations; every weight and bias read back through every accessor and compared with a model, the value compared with '
             'the reference program, random values tested for seed dependence and distribution; non-trivial: a well conditioned value was compared',
        note='sampled; the distribution of random weights is judged at seven standard errors',
        floor=3000),
    'C24': dict(
        drivers=[dict(src='c24.cpp', link=[('impl.cpp', 'o0')], variants={'asan': (6000, 200000, 4)}),
                 dict(src='c24.cpp', link=[('impl.cpp', 'o0')], variants={'vg': (160, 4000, 4)}),
                 dict(src='c24p.cpp', variants={'asan': (4000, 150000, 4), 'vg': (160, 4000, 4)}),
                 dict(src='c13.cpp', memory_only=True, variants={'asan': (2000, 40000, 1)}),
                 dict(src='c14.cpp', memory_only=True, variants={'asan': (3000, 60000, 1)}),
                 dict(src='c12.cpp', memory_only=True, variants={'asan': (300, 6000, 2)})],
        technique='AddressSanitizer, LeakSanitizer, UBSan, library assertions and valgrind memcheck on hostile histories of calls, with a watchdog',
        rule='expressions of extreme shapes (single nodes, deep, wide, arity up to 60, huge levels-back, inadmissible sizes), problems and algorithms '
             'driven by random sequences of valid and invalid calls with ordinary and non-finite numbers, in one or several threads; a call may only '
             'return or throw a std::exception; non-trivial: at least one call was made on a constructed object',
        note='what the sanitizers can see on sampled histories; kernels are called with at least one argument, moved-from objects only assigned or '
             'destroyed, formulas of exponential size not printed',
        floor=4000),
}
