"""Source of properties.jsonl and of the per-check parts of MANIFEST.json (run to regenerate both)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, note):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe, 'hook_needed': None},
              '_note': note})


CH, OPS, RE = 'chumpy/ch.py', 'chumpy/ch_ops.py', 'chumpy/reordering.py'

prop('C01', 'Every expression evaluates to what NumPy computes',
     'For every expression built from the library\'s arithmetic, elementwise functions, comparisons, logical tests, reductions, products, clipping and rearrangements, '
     'over inputs, plain numbers and NumPy arrays on either side and with broadcasting, the value is the float64 array NumPy computes for the same program '
     '(same shape, with scalar results held as one-element arrays), including at ties, signed zeros, NaN and infinities. '
     'The spelling (operator, method, function, keyword, call with defaults) makes no difference, and writing an input as a list, integer, float32 or strided array makes no difference.',
     ['programs', 'inputs'], 'all well-typed expression DAGs over the supported operations, all input values, shapes, axes and operand kinds',
     'The tests evaluate a few dozen fixed expressions on one random array each; combinations of operations, axes, broadcasting patterns and special values are unbounded.',
     [OPS, RE, CH, 'chumpy/logic.py', 'chumpy/np_tensordot.py'],
     [('value computation of each operation', 'compute_r methods in chumpy/ch_ops.py, chumpy/reordering.py, chumpy/logic.py'), ('operator overloads and normalisation of results', 'Ch.r and __add__ ... __ne__ in chumpy/ch.py')],
     ['.r of any node'], 'random expression DAGs compared with the NumPy functions themselves')
prop('C02', 'Derivatives are the true Jacobian',
     'For every expression that is differentiable at the current inputs, the derivative of the expression with respect to any of its inputs is the matrix of partial derivatives of the flattened '
     'value with respect to the flattened input, one row per element of the value and one column per element of the input. '
     'This includes broadcasting, operands used several times, shared sub-expressions, kinked operations away from their kinks, and every axis option for which derivatives are implemented.',
     ['programs', 'inputs'], 'all differentiable expression DAGs, all points away from kinks, every input of the expression',
     'The tests differentiate a handful of fixed expressions by finite differences at one random point; errors tied to shapes, axes, repeated operands or values do not show there.',
     [OPS, RE, CH, 'chumpy/linalg.py', 'chumpy/np_tensordot.py', 'chumpy/extras.py'],
     [('per-operation derivative rules', 'compute_dr_wrt methods'), ('chain rule', 'Ch.dr_wrt in chumpy/ch.py')], ['dr_wrt of any node'],
     'random expression DAGs; the oracle is complex-step differentiation of an independent NumPy evaluation')
prop('C03', 'Answers are never stale, over any history of changes and queries',
     'After any sequence of changes to inputs (whole, by element, slice or mask, through reshaped or transposed views, with new shapes), to operands and to parameters of existing expressions, interleaved with any queries and with the creation and disposal of other expressions, '
     'every value and every derivative reported is the one a freshly built graph would give for the current inputs. This holds for all nodes of the graph, whichever were queried before.',
     ['histories', 'programs'], 'all interleavings of modification, redefinition, query, creation and disposal over all expression DAGs',
     'The tests exercise one or two modify-then-read sequences on fixed small graphs; caching bugs need a particular query before a particular change on a particular graph.',
     [CH, RE, OPS],
     [('invalidation towards parents', 'Ch.__setattr__, Ch.clear_cache in chumpy/ch.py'), ('per-operation caches keyed by shape or parameters', 'dr_lookup / dr_cache in chumpy/reordering.py and chumpy/ch_ops.py')],
     ['.r, dr_wrt, lop after each step'], 'stateful model-based histories; the model is a NumPy re-evaluation with the current inputs')
prop('C04', 'All ways of asking for a derivative agree',
     'Forward mode, reverse mode, and left multiplication of the Jacobian by a matrix give the same derivatives (respectively the product of that matrix with them), in whatever order and combination they are asked for. '
     'This also holds with respect to an intermediate result (one that is not itself just a rearrangement or stacking), which is then treated as an independent variable, and with respect to a selection of an input. '
     'Asking for dense or sparse Jacobians changes only their representation.',
     ['programs', 'inputs', 'configurations'], 'all differentiable DAGs, all inputs, intermediates and selections, all multiplier matrices, all orders of the queries',
     'The tests use reverse mode and left multiplication on a couple of fixed expressions only.',
     [CH], [('forward and reverse accumulation', 'Ch.dr_wrt, Ch.lmult_wrt in chumpy/ch.py'), ('left products', 'Ch.lop, Ch.compute_lop'), ('representation options', 'make_dense / make_sparse')],
     ['dr_wrt(wrt), dr_wrt(wrt, reverse_mode=True), lop, lmult_wrt'], 'differential testing of the routes against each other and against complex-step differentiation')
prop('C05', 'Indexing selects what NumPy indexing selects',
     'Indexing an input or any expression by integers, slices with any bounds and step, ellipsis, new axes, index arrays, boolean masks or tuples of these gives the value NumPy indexing gives, again and again as the source changes, and its Jacobian has a single one per row in the column of the selected element. '
     'The derivative of any expression with respect to a selection, or a reshaped or transposed view, of an input (also a selection of a selection, without repeated elements) is the derivative with respect to that input restricted to the selected elements, in their order.',
     ['inputs', 'programs'], 'all index expressions over all shapes, nested to any depth, over inputs and expressions',
     'The tests index with a few fixed slices; index expressions, nesting and shapes are unbounded.',
     [CH, RE], [('selection node', 'Select in chumpy/reordering.py, Ch.__getitem__'), ('derivative with respect to views', 'Ch._compute_dr_wrt_sliced')],
     ['x[key].r, x[key].dr_wrt(x), f.dr_wrt(x[key])'], 'random index expressions; oracle is NumPy indexing of an array of positions')
prop('C06', 'Assignment changes exactly the addressed elements',
     'Assigning a number or array to any selection of an input, directly or through any chain of reshaped, transposed, rolled, flipped or indexed views, sets exactly the addressed elements to the (broadcast) assigned values and leaves every other element bit-identical, whatever values are there before. '
     'All views and expressions of that input then show the new values, no other input changes, and an attempt to assign to an expression that is not a view, or to assign an expression, is refused and changes nothing.',
     ['histories', 'inputs'], 'all sequences of assignments through all chains of views',
     'The tests assign through two or three fixed views.', [CH, RE],
     [('assignment through views', 'Ch.__setitem__ in chumpy/ch.py')], ['.r of the input and of all its views after each assignment'], 'stateful histories against NumPy views of one array')
prop('C07', 'Rearranging and stacking only moves elements',
     'Reshape, ravel, transpose, axis swaps and rolls, squeeze, new axes, flips, rotation, roll, tile, repeat, diagonal extraction and construction, sorting, and concatenation and stacking place elements exactly where NumPy places them. '
     'Their Jacobian with respect to each argument is the 0/1 matrix with a one exactly where an output element is a copy of that input element, also when an array is stacked with itself, and both stay right when arguments later change values, shape or parameters.',
     ['inputs', 'histories', 'programs'], 'all shapes, axes, counts and argument lists, all compositions, and subsequent changes of arguments',
     'The tests check each operation for one or two shapes and never after the shape changes.', [RE],
     [('index-driven Jacobians and their caches', 'Reorder, Select, Concatenate in chumpy/reordering.py')], ['.r and dr_wrt'], 'generated operations and compositions; oracle tracks element positions through NumPy')
prop('C08', 'Copies and pickles are faithful and independent',
     'A copy of an expression, or one written with pickle in any protocol and read back, has the same value and the same derivatives with respect to its own inputs, keeps inputs and sub-expressions that were shared inside the copied object shared, and follows later changes of its own inputs. '
     'Later changes to the original do not affect the copy and vice versa, and copying leaves the original unchanged and working.',
     ['programs', 'histories'], 'all expression DAGs, copied in any cache state, followed by any changes on either side',
     'The tests copy one or two fixed graphs and compare values once.', [CH, OPS],
     [('serialisation without caches and parents', 'Ch.__getstate__, Ch.__setstate__ in chumpy/ch.py'), ('copy', 'copy in chumpy/ch_ops.py')], ['.r and dr_wrt of original and copy'], 'round-trip with subsequent mutation on either side, compared with NumPy models of both')
prop('C09', 'Replacing a part of an expression equals rebuilding it',
     'Replacing an input or sub-expression by another one inside an expression makes the expression, in all places where the old one occurred, equal in value and derivatives to the expression built with the new one from the start, whatever had been computed before. '
     'The old part itself keeps its value, no longer influences the expression (unless it is part of the replacement), and later changes of the new part are followed.',
     ['programs', 'histories'], 'all DAGs, all replaced nodes, all replacements of the same shape, any cache state',
     'One fixed replacement is tested.', [CH], [('in-place substitution', 'Ch.replace in chumpy/ch.py')], ['.r and dr_wrt after replace'], 'metamorphic comparison with a rebuilt model graph')
prop('C10', 'Removing redundancy preserves meaning',
     'Merging identical sub-expressions of an expression leaves its value and its derivatives with respect to every input unchanged, at the current inputs and after any later changes of inputs. '
     'Distinct inputs stay distinct even when they hold equal values or the same array, identical sub-expressions over the same inputs are computed once afterwards, and the operation terminates.',
     ['programs', 'histories'], 'all DAGs with repeated sub-expressions, then all changes of inputs', 'One fixed expression is tested.', [CH],
     [('merging by semantic identity', 'Ch.remove_redundancy, Ch.sid in chumpy/ch.py')], ['.r, dr_wrt after remove_redundancy'], 'DAGs with planted duplicates, compared with a NumPy model before and after changes')
prop('C11', 'Linear algebra: values and derivatives',
     'For well-conditioned real matrices (single and, for the inverse, stacked), inverse, determinant, log-determinant and its sign, pseudo-inverse, least-squares solution and residual, singular value decomposition (tall, square or wide) and norm have the values NumPy defines, '
     'and their derivatives with respect to every operand are the true ones, also when operands are themselves expressions and after their values change. The values of the singular value decomposition are right for rank-deficient matrices, too.',
     ['inputs', 'histories'], 'all well-conditioned matrices of all shapes including tall, wide, 1x1 and stacks, several right-hand sides',
     'The tests use one random matrix per routine.', ['chumpy/linalg.py'], [('per-routine rules', 'Inv, Det, LogAbsDet, Pinv, SvdD, SvdV, SvdU, lstsq, norm in chumpy/linalg.py')], ['.r and dr_wrt'],
     'generated matrices; oracle is numpy.linalg, complex-step and gauge-aligned differences for SVD')
prop('C12', 'Deferred functions equal direct expressions',
     'A function wrapped as a deferred expression with named arguments, bound at construction or later, re-bound any number of times, called with the arguments, nested in or shared between other expressions, has the value and derivatives of the expression written out directly with the arguments bound at that moment. '
     'The same holds for arguments reached through handles and for grouped expressions, unbound or unused arguments do no harm, and two deferred expressions made from one function do not influence each other.',
     ['programs', 'histories'], 'all wrapped functions, all binding histories, all argument graphs', 'The tests bind two fixed lambdas.', [CH],
     [('deferred expressions', 'ChLambda, ChHandle, ChGroup in chumpy/ch.py')], ['.r and dr_wrt'], 'random wrapped functions and binding histories against direct NumPy evaluation')
prop('C13', 'Contract for user-defined operations',
     'For a user-defined operation that declares its operands and parameters, the change notification is called before a value or derivative is computed from changed operands, and names every operand and parameter that changed since the last notification and no other; a cached property with declared dependencies is recomputed before use if and only if one of them changed (receiving its previous value if it has a parameter for it); values and derivatives are requested only in up-to-date state; values, and derivatives of an expression that no other expression uses, are not recomputed while nothing changed. '
     'The resulting expression obeys the chain rule for whatever derivative form the operation returns: dense, sparse, scalar multiple of the identity or linear operator. '
     'Positional arguments go to the declared names in their order, also in classes derived from others; names that every expression already has are refused as operands or parameters, with an error naming them.',
     ['programs', 'histories'], 'all operand graphs around a user-defined operation, all histories of changes and queries', 'The tests define one such class with a fixed sequence of changes.', [CH],
     [('dirty tracking', 'Ch._call_on_changed, _dirty_vars'), ('cached properties', 'depends_on in chumpy/ch.py')], ['calls received by the user-defined operation, .r, dr_wrt'], 'instrumented user operations driven by random histories against an event model')
prop('C14', 'Dogleg: progress, limits and isolation',
     'For every least-squares problem and every admissible setting, the built-in trust-region solver ends with free variables whose residual is finite and no larger than at the start, reports in its step callback a strictly decreasing residual, evaluated at the point the free variables then hold, and returns with the free variables at the best point it reported. '
     'It respects the iteration and evaluation limits, always terminates, displays (if asked to) the current sum of squares, in total and for each labelled part, once per reported step, reaches the minimiser of linear least-squares problems, and never changes any other input or the entries of a free array that were not selected.',
     ['inputs', 'configurations', 'programs'], 'all residual functions (linear, curved, flat, failing with NaN, rank deficient), starting points, free-variable sets including selections, and solver options',
     'The tests minimise Rosenbrock and a linear system from one start.', ['chumpy/optimization.py', 'chumpy/optimization_internal.py'],
     [('trust-region loop', 'minimize_dogleg, DoglegState, ChInputsStacked in chumpy/optimization_internal.py')], ['step callback, final free variables'], 'generated problems and options with invariants over the recorded history')
prop('C15', 'SciPy minimisers receive the right function and gradient',
     'Minimising through any of the supported SciPy methods (Nelder-Mead, Powell, CG, BFGS, Newton-CG, L-BFGS-B, TNC, COBYLA, SLSQP, trust-ncg) gives the method, at every point it asks for, the sum of squared residuals (or the scalar objective itself) and its exact gradient and, for the methods using curvature, the Gauss-Newton curvature at that point. '
     'It stores the method\'s answer in the free variables (also when they are selections or several arrays), respects bounds and constraints, forwards callbacks, and leaves all other inputs unchanged.',
     ['inputs', 'configurations', 'programs'], 'all objectives, all evaluation points, all supported methods and free-variable sets', 'The tests run one problem and only look at the end point.',
     ['chumpy/optimization.py'], [('adapter to scipy.optimize.minimize', 'minimize in chumpy/optimization.py')], ['arguments captured at scipy.optimize.minimize, final free variables'],
     'the SciPy entry point is replaced by a recorder probing the callbacks at generated points; plus real runs against plain-NumPy objectives')
prop('C16', 'The optimum does not depend on how the problem is written',
     'Giving a least-squares objective as one expression, a list, a tuple or a dictionary of parts, splitting or reordering the free variables, selecting the entries of an array in several parts, forcing dense or sparse algebra, choosing the linear solver, or attaching callbacks and printing, leads to the same optimum for problems with a unique well-conditioned solution.',
     ['configurations', 'inputs'], 'all equivalent presentations of all uniquely solvable problems', 'One presentation is tested.', ['chumpy/optimization.py', 'chumpy/optimization_internal.py'],
     [('objective and variable stacking', 'setup_objective, ChInputsStacked')], ['final free variables'], 'metamorphic: same problem under different presentations, and the closed-form solution')
prop('C17', 'Queries are pure and results are safe to keep',
     'Evaluating values and derivatives, of any node and in any mode, never changes the value of any input, never modifies the NumPy arrays handed to the library as operands, and repeated queries without changes return equal results. '
     'Values and Jacobians returned earlier keep their contents when inputs change later or other queries run, returned values cannot be written to, and expressions over disjoint inputs do not affect each other.',
     ['programs', 'histories'], 'all DAGs and all query sequences', 'No test looks at aliasing or at results kept across changes.', [CH, OPS, RE],
     [('read-only result views', 'Ch.r'), ('fresh arrays per evaluation', 'compute_r / compute_dr_wrt')], ['byte snapshots of inputs, operands and earlier results'], 'random histories with snapshots as the oracle')
prop('C18', 'No derivative exactly when there is no dependence',
     'The derivative of an expression with respect to a variable is reported as absent when the expression does not depend on it through differentiable operations (it is another variable, or is reached only through comparisons, rounding, signs or logical tests), in forward and reverse mode alike and for all nodes. '
     'It is never absent when the true derivative is nonzero, the left product of such a derivative with zeros is zero rather than absent, and an expression mixing dependent and independent parts treats the independent ones as contributing zero.',
     ['programs', 'inputs'], 'all DAGs mixing differentiable and piecewise-constant operations, all variables inside and outside the graph', 'The tests check a single unrelated variable.', [CH, OPS, 'chumpy/logic.py'],
     [('absent derivatives', 'Ch.dr_wrt, Simpleton, BinaryElemwiseNoDrv, LogicFunc')], ['dr_wrt'], 'random DAGs with masks; oracle is a path analysis of the generated program plus complex-step differentiation')
prop('C19', 'Guarded and special functions behave at their special points',
     'Guarded division yields zero with zero derivative where the quotient is not finite and the ordinary quotient and derivative elsewhere; replacement of non-finite numbers, clipping, powers with zero, negative or integral bases and exponents, gamma function, central moments, sum of squares, product with a fixed (dense or sparse) matrix, and trilinear-style interpolation of a volume (clamped outside it) have their documented values, and derivatives that are finite and correct wherever they are defined.',
     ['inputs'], 'all inputs including zeros, negatives, huge, tiny and non-finite numbers, grid points and points outside the volume', 'The tests cover ordinary points of some of these functions only.', [OPS, 'chumpy/extras.py', CH],
     [('guarded rules', 'NanDivide, nan_to_num, power, clip, sqrt in chumpy/ch_ops.py'), ('extras', 'Interp3D, gamma, moment in chumpy/extras.py')], ['.r and dr_wrt'], 'generated special inputs against independent per-element references')
prop('C20', 'Dropped expressions are released',
     'Once the last user reference to an expression is gone, the expression and everything only it used can be reclaimed, even though its inputs live on and whatever was queried, copied or minimised before. '
     'An input kept alive by a long-running loop that builds and discards expressions does not accumulate them, and changing that input later does no work for discarded expressions.',
     ['histories', 'programs'], 'all DAGs and query histories', 'No test observes object lifetime.', [CH],
     [('weak references to parents and in caches', 'WeakKeyDictionary _parents and _cache in chumpy/ch.py')], ['weak references after garbage collection'], 'random histories with weak references to discarded nodes')
prop('C21', 'Creation, conversion and query helpers mirror NumPy',
     'Array creation routines, random number routines under a given seed, argument-of-extremum and nonzero queries, conversions to array, float, int and text, and shape, size, number of dimensions and length give what their NumPy namesakes give on the same arguments, with created arrays becoming independent inputs that can be assigned and differentiated. '
     'The testing helpers accept or reject exactly when NumPy\'s do.',
     ['inputs'], 'all arguments of all these routines', 'The tests call a few of them once.', [OPS, 'chumpy/ch_random.py', 'chumpy/testing.py', CH],
     [('wrapped routines', 'numpy_array_creation_routines in chumpy/ch_ops.py, api_wrapped_simple in chumpy/ch_random.py, fn1 in chumpy/testing.py')], ['returned values'], 'differential testing against NumPy on generated arguments')
prop('C22', 'Inspection reports the true graph and changes nothing',
     'Walking an expression visits every node it depends on exactly once and nothing else; the residual report prints each labelled part with its current sum of squares and then the total; labels never influence results. '
     'Iterating, printing, labelling, and switching on verbose or debug diagnostics leave all values and derivatives unchanged.',
     ['programs', 'configurations'], 'all DAGs, labellings and diagnostic settings', 'No test inspects these outputs.', [CH, 'chumpy/utils.py', 'chumpy/monitor.py'],
     [('graph walk', 'Ch.tree_iterator, dfs_do_func_on_graph'), ('report', 'Ch.print_labeled_residuals')], ['iterated nodes, printed text'], 'random labelled DAGs against a model of the generated program')
prop('C23', 'Failures leave no trace',
     'A query that cannot be answered (incompatible shapes, values that are not numbers, a user-defined operation that raises while computing a value, a derivative, a cached property or while being notified) raises, and never returns an earlier answer. '
     'Once its cause is removed every expression answers as if the failure had never happened, and a rejected assignment or an exception from a callback or residual during a minimisation leaves the inputs holding well-defined values from which all later answers follow.',
     ['histories', 'faults'], 'all histories of assignments and queries with failures at any point', 'No test makes a query fail and goes on afterwards.', [CH, 'chumpy/optimization.py'],
     [('notification', 'Ch._call_on_changed'), ('value and derivative caches', 'Ch.r, Ch.dr_wrt, depends_on'), ('assignment', 'Ch.__setitem__, Ch.__setattr__')], ['values, derivatives and exceptions after a failed step'], 'random histories with injected failures against a fresh reference evaluation')
prop('C24', 'Work is shared and nothing is computed in vain',
     'However often an expression is used in a graph, its value is computed at most once after each change of something it depends on and not at all otherwise; within one forward-mode derivative query each operation computes its derivative with respect to each operand at most once; '
     'asking again with nothing changed, for a value or for a derivative of an expression no other expression uses, computes nothing. Changing an input computes nothing. (Deferred functions, groups and operations that build private expressions of their own are excepted.)',
     ['programs', 'histories'], 'all DAGs with shared parts and all histories of changes and queries', 'The tests check two fixed graphs for caching.', [CH],
     [('value cache', 'Ch.r'), ('derivative cache', 'Ch.dr_wrt'), ('invalidation', 'Ch.clear_cache, Ch.__setattr__')], ['the calls of compute_r and compute_dr_wrt'], 'random shared DAGs with instrumented operations against a dependency model')


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
    claimed = [p for p in P if os.path.exists(os.path.join(V, 'props', p['id'].lower() + '.py'))]
    m = {'version': 1, 'setup_cmd': 'python3-vt run.py --self-test',
         'checks': [{'property': p['id'], 'quick_cmd': 'python3-vt run.py %s quick' % p['id'], 'thorough_cmd': 'python3-vt run.py %s thorough' % p['id'],
                     'technique': 'property-based testing: ' + p['_note'], 'level': 'exploration',
                     'level_note': 'Holds on every generated case (counts, rule and samples in the evidence file); trusts NumPy/SciPy under PyPy and the bounds of the generator. Failures are confirmed in a fresh process and shrunk before they are reported.'}
                    for p in claimed],
         'not_applicable': [{'property': p['id'], 'reason': 'check not built yet'} for p in P if p not in claimed]}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
