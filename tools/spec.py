#!/usr/bin/env python3
"""The property table: writes properties.jsonl and MANIFEST.json.
A property is claimed when harness/<ID>.cpp exists."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, level_note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, observe=observe, note=level_note))
S = 'source/core/'
prop('C01', 'Decision trees and forests: schedule-independent, correct greedy trees',
     'Fitting a decision tree or a random forest with a fixed seed gives the same model, predictions, probabilities and score for every interleaving and for every team size granted to its parallel regions (and for every thread count when trees are not themselves split between threads). '
     'A fitted tree respects the depth, sample and impurity limits and splits each node at the threshold (or category) of greatest impurity improvement among the features it may consider; each leaf predicts the majority class of the training rows that reach it and its probabilities are the class frequencies of those rows. '
     'A forest predicts the vote (or the mean probability) of its trees, score is the fraction of correct predictions, and this holds for any valid data, labels, criterion, histogram and bootstrap option.',
     ['schedules', 'inputs', 'configurations'],
     'all fair interleavings of the OpenMP tasks and loops of fit/predict/score, all team sizes (also fewer threads than requested), all valid matrices, labels and options',
     'Tests run a few data sets on whatever schedule the machine gives, and compare scores with loose thresholds; a race in the task-parallel tree builder or a dependence on the team size appears on rare interleavings only.',
     [S+'decision_forest'],
     [('task-parallel depth/breadth build', S+'decision_forest/tree'), ('per-tree seeds and bootstrap', S+'decision_forest/forest')],
     'da_tree_*/da_forest_* results; rinfo; predictions')
prop('C02', 'k-means and DBSCAN: valid, schedule-independent clusterings',
     'k-means returns labels that are a nearest centre for every row, an inertia equal to the sum of squared distances, centres that are the means of their clusters at convergence, no worse than the best of the requested runs, and predict/transform agree with the centres, for every algorithm (Lloyd, Elkan, MacQueen, Hartigan-Wong), initialisation and precision. '
     'DBSCAN returns exactly the core points, the clusters as the connected components of core points, border points in a cluster of a neighbouring core point, and noise otherwise, for every algorithm and metric. '
     'Both give the same result for every number of threads, team size and interleaving, for any valid input.',
     ['schedules', 'inputs', 'configurations'],
     'all interleavings and team sizes of the parallel chunks and merges, all valid data (ties, duplicates, single cluster, n<threads), all options',
     'Tests compare a handful of stored clusterings at the default thread count; wrong merges of per-thread partial results need particular chunk sizes, team sizes or orders.',
     [S+'clustering'], [('per-thread partial sums and merge', S+'clustering/kmeans'), ('neighbour lists and cluster growth', S+'clustering/dbscan')],
     'da_kmeans_*, da_dbscan_*, da_handle_get_result')
prop('C03', 'Nearest neighbors: exact, complete and schedule-independent',
     'k-nearest and radius searches (brute force, k-d tree, ball tree; every metric, weight, storage order and precision) return exactly the k nearest training rows, respectively exactly the rows within the radius, with their true distances, and classifier/regressor predictions, probabilities and outlier handling follow from those neighbors. '
     'The result is the same for every number of threads, every team size granted and every interleaving, up to the order of equidistant neighbors.',
     ['schedules', 'inputs', 'configurations'],
     'all interleavings and team sizes of the blocked searches and merges, all valid training and query sets (duplicates, ties, one row, radius zero), all options',
     'Tests run small stored cases on one machine; block boundaries, per-thread heaps and merges only go wrong for particular sizes, team sizes and orders.',
     [S+'nearest_neighbors', S+'metrics'], [('per-thread heaps merged per block', S+'nearest_neighbors'), ('tree search and bounding', S+'nearest_neighbors/binary_tree.cpp')],
     'da_nn_* calls and handle results')
prop('C04', 'Approximate neighbors (IVF index): consistent, exact when all lists are probed',
     'An IVF index returns, for each query, neighbors that are genuine training rows with their true distances in sorted order without duplicates, exactly the k nearest rows of the lists it probed, and exactly the true k nearest rows when all lists are probed; rows added later are found like rows trained on. '
     'Results are the same for every number of threads, team size, interleaving and internal block size, for any sequence of train, add and search calls.',
     ['schedules', 'inputs', 'histories', 'configurations'],
     'all interleavings and team sizes, all histories of train/add/search on one handle, all valid data and internal block sizes',
     'Tests check a few recall numbers; an entry lost or doubled between list blocks, adds and concurrent merges shows only for particular sizes, histories or schedules.',
     [S+'approximate_neighbors'], [('inverted lists in blocks', S+'approximate_neighbors')], 'da_approx_nn_* calls')
prop('C05', 'SVM: optimality conditions and consistent predictions, schedule-independent',
     'A trained SVC/SVR/nu-SVC/nu-SVR model satisfies the optimality (KKT) conditions of its documented optimisation problem to the requested tolerance, with support vectors, dual coefficients, bias and per-class counts that agree with each other. '
     'decision_function, predict and score are the values implied by that model for any query set, for every kernel, multi-class shape and precision, and do not depend on the number of threads, the team size or the interleaving.',
     ['schedules', 'inputs', 'configurations'],
     'all interleavings and team sizes, all valid data, kernels, parameters, numbers of classes, decision-function shapes',
     'Tests compare to stored solutions of small problems at one thread count; kernel-row caching, one-vs-one bookkeeping and blocked predictions fail only for particular sizes and schedules.',
     [S+'svm'], [('working-set SMO solver', S+'svm'), ('one-vs-one composition and predict blocks', S+'svm')], 'da_svm_* results and predictions')
prop('C06', 'Manifold and matrix-factorisation methods stay reproducible under any schedule',
     'With a fixed seed t-SNE (exact and Barnes-Hut) returns a finite embedding and a KL divergence that do not depend on the interleaving of its parallel regions, and the returned divergence is that of the returned embedding. '
     'Iteration and early-stopping limits are respected for any valid input.',
     ['schedules', 'inputs', 'configurations'],
     'all interleavings and team sizes, all valid inputs and options',
     'Tests check a loose quality bound on one schedule; a racy accumulation in the gradient or tree build shows only on rare interleavings.',
     [S+'dimension_reduction/tsne'], [('parallel gradient and quad-tree', S+'dimension_reduction/tsne')], 'embedding and rinfo results')
prop('C07', 'Statistics, metrics and kernels: exact definitions on any layout and schedule',
     'Basic statistics (means, variances, moments, quantiles, five-point summaries, standardisation, covariance and correlation), pairwise distances and kernel matrices equal their definitions for either storage order, any leading dimension, axis and precision, independently of threads, team size and interleaving. '
     'They read only the elements of the input matrices and write only the elements of the output, never the padding, and leave inputs unchanged unless documented to overwrite them.',
     ['schedules', 'inputs', 'configurations'],
     'all interleavings and team sizes of the blocked loops, all shapes, leading dimensions, storage orders, axes',
     'Tests use a handful of shapes; wrong block remainders, leading-dimension slips and racy reductions need particular sizes and schedules.',
     [S+'basic_statistics', S+'kernel_functions', S+'metrics'], [('blocked and parallel reductions', S+'basic_statistics'), ('distance and kernel tiles', S+'kernel_functions')], 'output arrays')
prop('C08', 'Handles used by different threads at once do not affect each other',
     'When several application threads each work on their own handles and datastores at the same time, every call returns the same status, results, error messages, options and files as when that thread runs alone, for every interleaving. '
     'There is no data race on state shared by the library (globals, caches, architecture context, hidden settings).',
     ['schedules', 'histories'],
     'all interleavings of 2 to 4 application threads making arbitrary valid and invalid calls on disjoint handles',
     'Tests call the library from one thread only.',
     [S+'utilities', S+'dynamic_dispatch/context.cpp'], [('global context and lazily initialised state', S+'utilities'), ('per-handle error stack', S+'utilities/da_error.hpp')], 'all public calls')
prop('C09', 'Saved models load back to equivalent models',
     'Saving any fitted handle of a type that supports it (da_handle_save_model, to a file or a buffer) and loading it into a new handle (da_handle_load_model) gives a handle whose options, predictions, transforms, scores and kept results are identical to those of the saved handle, whatever history of fits, queries and earlier save/load cycles led to it. '
     'The loaded handle can be saved, loaded and trained again like any other; loading leaves the file unchanged, and a handle that has not been fitted or does not support saving is refused with an error.',
     ['histories', 'inputs', 'configurations', 'schedules'],
     'all savable models, precisions, option settings and histories of fit, query, save, load and refit, to files and buffers with short and interrupted I/O, queried under any schedule',
     'Tests save and load a few stored models of each kind and compare one prediction.',
     [S+'utilities/model_persistence.cpp', S+'utilities/da_handle.cpp'], [('per-class serialize/deserialize', S+'utilities/model_persistence.hpp')], 'results before and after')
prop('C10', 'Loading a torn, corrupted or unreadable model fails cleanly',
     'da_handle_load_model on a truncated, empty, missing or unreadable file or buffer, or one with a wrong header, version, precision or handle type, returns an error status. With any other bytes altered it returns an error or a handle that can still be queried for results, saved and destroyed. '
     'In no case does loading crash, hang, exhaust memory, leak or touch memory it does not own, and afterwards an intact model loads with its full result.',
     ['crash_points', 'fault_sequences', 'inputs'],
     'all truncation points (crash at any byte of a save), all read errors and short reads, random corruptions of any byte or length field',
     'Tests load a few malformed files; the crash points and read faults are never exercised.',
     [S+'utilities/model_persistence.cpp', S+'utilities/da_handle.cpp'], [('header, version and size checks', S+'utilities/model_persistence.cpp')], 'status and later use of the handle')
prop('C11', 'A save that reports success is complete on disk',
     'When da_handle_save_model returns success, the file holds the complete model and loads to an equivalent handle; when opening, any write, or the final flush or close fails (full disk, I/O error, quota) it returns an error status. '
     'A failed save leaves the handle in memory unchanged and usable, and a later save of the same handle succeeds completely.',
     ['fault_sequences', 'crash_points'],
     'a write fault at any byte, delayed errors at close, open failures, short writes, interrupted system calls, failed allocations, for every model kind',
     'Tests never make a write fail.',
     [S+'utilities/da_handle.cpp', S+'utilities/model_persistence.cpp'], [('stream state checks after writing', S+'utilities/da_handle.cpp save')], 'status against the bytes on disk')
prop('C12', 'CSV loading returns exactly the table in the file, or an error',
     'Reading a well-formed CSV file (any dialect set through the options: delimiter, quotes, escapes, comments, skipped rows, header, footer, line terminators, number formats) gives exactly the rows, columns, headings, types and values the file holds, in the storage order asked for, wherever read-chunk boundaries fall. '
     'Read errors, short reads, failed allocations and malformed files give an error status, never a silently shortened or altered table, without leaks or invalid memory accesses, and the datastore can be used for the next file.',
     ['inputs', 'fault_sequences', 'configurations'],
     'all tables and dialects, all read fault positions, short and interrupted reads, failed allocations, malformed files, sequences of reads on one store',
     'Tests read a few small files on a healthy disk; no file crosses the 256 KiB read chunk and no read fails.',
     [S+'csv', S+'data_management'], [('chunked tokenizer', S+'csv/tokenizer.c'), ('conversion and type detection', S+'csv/read_csv.hpp')], 'da_read_csv_*, da_data_load_from_csv')
prop('C13', 'The datastore behaves as a table of typed columns under any history of calls',
     'After any sequence of column/row loads, horizontal and vertical concatenations, row selections, slices, renames, element updates, missing-row removals and extractions, a datastore holds exactly the table a simple model of typed columns predicts, and every extraction or query returns that table\'s data in the order asked for. '
     'Calls with invalid arguments return an error and leave the table unchanged; no call leaks, double-frees or accesses memory outside the user\'s arrays.',
     ['histories', 'inputs', 'fault_sequences'],
     'all histories of datastore calls with valid and invalid arguments, of every type and storage order',
     'Tests follow a few fixed call sequences.',
     [S+'data_management'], [('block list and row/column interval maps', S+'data_management/data_store.hpp'), ('interval sets', S+'data_management/interval_set.hpp')], 'da_data_* calls')
prop('C14', 'Handle and option calls follow a simple state machine under any history',
     'For every handle type the options accept exactly the documented values, a set option reads back (case, spacing and type rules included), an invalid value, name or type is refused with an error and changes nothing, and options set are the ones the next computation uses. '
     'Calls on null, wrong-type, wrong-precision or not-yet-fitted handles return the documented error status rather than crash, result queries honour the caller\'s array size, and handles can be created and destroyed in any order without leaks.',
     ['histories', 'inputs'],
     'all sequences of handle creation, option set/get, invalid calls, result queries and destruction over all handle types',
     'Tests try a few option names and errors; not histories across types.',
     [S+'utilities/options.hpp', S+'utilities/da_handle.cpp'], [('option registry', S+'utilities/options.hpp'), ('handle dispatch and checks', S+'utilities/da_handle.hpp')], 'statuses, option values')
prop('C15', 'A failed allocation becomes an error status, never a crash or a wrong result',
     'When any allocation made by a public call fails, the call returns an error status (normally a memory error) or the correct result, without crashing, terminating, hanging, leaking or corrupting memory. '
     'The handle or datastore stays valid: it can be destroyed or used again, and repeating the call with memory available gives the correct result.',
     ['fault_sequences', 'schedules'],
     'every allocation site reached by every modelled call, single and repeated failures, on every thread of the team',
     'Tests never make an allocation fail; more than a hundred hand-written bad_alloc paths are dead code in testing.',
     [S], [('try/catch bad_alloc and nullptr checks', S)], 'status; later use of the same handle')
prop('C16', 'Results depend on data and options, not on what a handle did before',
     'Fitting, predicting or transforming with a handle that was used before (with other data, other sizes, other options, failed or rejected calls, or after a refresh of its data) gives the same results as a fresh handle with the same data and options, for every algorithm. '
     'Results of an earlier computation are never returned as those of new data: a query before recomputation is refused or marked out of date.',
     ['histories', 'inputs'],
     'all histories of set_data, fit, predict, option changes and failing calls on one handle, for every algorithm and precision',
     'Tests use each handle once or twice along one path.',
     [S], [('model_trained / refresh flags and cached buffers', S)], 'results against a fresh handle')
prop('C17', 'Solvers with callbacks honour limits, user stops and clocks',
     'Nonlinear least squares calls user callbacks only with valid data (finite coefficients within the bounds), ends with the documented status when a callback fails, at the iteration or time limit or at a tolerance, never ends above the objective it started from, and reports the objective, gradient norm and evaluation counts that belong to the returned coefficients; the handle then fits again like a new one. '
     'The iteration and time limits of nonlinear least squares, L-BFGS-B and coordinate descent fits are honoured to within an iteration on a steadily advancing clock, clocks change nothing else about a fit, and clock jumps never hang or crash a solver.',
     ['fault_sequences', 'inputs', 'schedules'],
     'callback failures at any call, clocks advancing, stalling and jumping, all limits, problems and options',
     'Tests use well-behaved callbacks and a real clock.',
     [S+'optimization', S+'nlls', S+'linear_model'], [('stopping tests and monitors', S+'optimization')], 'status, info array, callback trace')
prop('C18', 'Linear models and PCA solve their stated problems on any schedule',
     'Linear regression (ordinary, ridge, lasso, elastic net; any solver, with or without intercept, standardisation or scaling, dense or wide data) and logistic regression return coefficients that satisfy the optimality conditions of the documented objective, and predictions and loss that follow from them. '
     'PCA returns orthonormal components, scores, variances and transforms that reproduce the data as documented, and results do not depend on threads, team size, interleaving or storage order.',
     ['schedules', 'inputs', 'configurations'],
     'all interleavings and team sizes, all data shapes, storage orders, solvers, scalings and options',
     'Tests compare with stored solutions for a few data sets and schedules.',
     [S+'linear_model', S+'factorization', S+'optimization'], [('coordinate descent and L-BFGS objective evaluation', S+'linear_model'), ('blocked factorisation', S+'factorization')], 'coefficients, components, predictions')
prop('C19', 'Seeded randomness is reproducible and splits are true partitions',
     'With a fixed non-negative seed shuffles, train/test splits and every randomised algorithm give identical results on every run, thread count and machine load, and seed -1 draws fresh entropy. '
     'train_test_split returns disjoint index sets of the requested sizes covering exactly the requested rows, stratified splits keep class proportions to rounding, split data and labels are the selected rows in order, and failures of the system entropy source give an error, not a crash.',
     ['inputs', 'schedules', 'fault_sequences'],
     'all sizes, seeds, strata and storage orders; entropy source failing or repeating; all schedules',
     'Tests check a few sizes and seeds.',
     [S+'utilities'], [('shuffle and split', S+'utilities')], 'index arrays, split data')
prop('C20', 'Interpolants reproduce their data and derivatives for any order of calls',
     'A cubic spline built with any boundary condition and order of set_sites / set_values / compute calls passes through its data (values, and derivatives where given), is twice continuously differentiable where the spline type promises it, and satisfies its boundary conditions. '
     'Evaluation returns the piecewise polynomial and its derivatives at any sites, on any layout, for every number of threads and interleaving, and values set anew replace the old ones.',
     ['schedules', 'inputs', 'histories'],
     'all site and value sets, layouts, boundary conditions, evaluation points and histories of calls on one handle, all interleavings',
     'Tests check stored values on a few functions.',
     [S+'interpolation'], [('spline systems and evaluation', S+'interpolation/cubic_spline')], 'evaluated values, coefficients')

HOOKS = ['18a05fb']
TECH = 'deterministic simulation with fault injection: seeded search over schedules, faults and histories'
def main():
    claimed = []
    with open(V + '/properties.jsonl', 'w') as f:
        for p in P:
            o = dict(id=p['id'], title=p['title'], statement=p['statement'],
                     quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'],
                     anchors=dict(files=sorted(set(p['files'])), mechanism=[dict(name=a, where=b) for a, b in p['mech']]))
            if p['observe']:
                o['anchors']['observe_at'] = [p['observe']]
            f.write(json.dumps(o) + '\n')
    checks, na = [], []
    for p in P:
        if os.path.exists(V + '/harness/%s.cpp' % p['id']) and p['id'] not in os.environ.get('WIP', ''):
            n = p['note'] or NOTE
            checks.append(dict(property=p['id'], quick_cmd='python3 check.py %s quick' % p['id'],
                               thorough_cmd='python3 check.py %s thorough' % p['id'], technique=TECH,
                               level='exploration', level_note=n))
        else:
            na.append(dict(property=p['id'], reason='no simulation scenario has been built for this property yet'))
    m = dict(version=1, setup_cmd='python3 -m py_compile check.py sim/build.py',
             hooks=dict(guard='AOCLDA_SIM', enable='sim/build.py compiles /repo with -DAOCLDA_SIM', source_commits=HOOKS),
             checks=checks, not_applicable=na,
             notes='See DESIGN.md. The hooks only make block sizes and parallelization thresholds replaceable; every other seam '
                   'is the compiler-inserted OpenMP and memory-access calls, libc and the C++ runtime, replaced at link time.')
    json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
NOTE = ('Seeded random search, no exhaustiveness: a violation outside the explored seeds is missed. Real library code '
        'compiled from /repo; OpenMP runtime, allocator, clock, entropy and file descriptors are simulated; BLAS/LAPACK '
        'and the C++ library run as installed and are trusted; weak memory orderings are not simulated (data races are '
        'reported instead).')
if __name__ == '__main__':
    main()
