TA = 'tensap/tensor_algebra/tensors/'
TT = 'tensap/'
NOTE = ('Real code executed on z3 terms; every path within the stated sizes '
        'decided by z3 over exact reals, counterexamples replayed on floats. ')

PROPS = [
 {'id': 'P01', 'title': 'Dense tensor operations agree with their entrywise definition',
  'statement': 'Every operation on a dense tensor (arithmetic, transposition, '
    'reshaping, matricization, contraction and Kronecker-type products, mode '
    'products, diagonal evaluation, partial evaluation, reductions, norms, '
    'orthogonalisation) returns exactly the tensor given by its entrywise '
    'definition, for any order, mode sizes, entries and admissible list of '
    'modes in any order. Operands are left unchanged.',
  'quantifier': 'all real entries, all admissible mode lists, orders 1-4 and mode sizes 1-3',
  'why': 'FullTensor is only exercised indirectly with a few sizes and mode lists',
  'files': [TA + 'full_tensor.py'],
  'mechanism': [('mode bookkeeping in transpose/tensordot/matricize', TA + 'full_tensor.py')],
  'note': NOTE + 'Orders 1-4, sizes 1-3; rounding excluded.'},
 {'id': 'P02', 'title': 'Arithmetic on tree tensors commutes with densification',
  'statement': 'For tree based tensors on the same dimension tree, with any '
    'combination of active and inactive leaves, sums, differences, scalar '
    'multiples, Hadamard and Kronecker products, concatenation, inner products, '
    'mode products with matrices, vectors and diagonal matrices, reductions and '
    '(in)activation of leaves, once written as full tensors, equal the same '
    'operation on the full tensors, and leave the operands unchanged. Pairs of '
    'tensors that cannot be combined node by node are rejected, not mixed.',
  'quantifier': 'all core entries, the listed trees of order 2-5, ranks 1-3, mode sizes 1-3, patterns of inactive leaves',
  'why': 'one or two shapes with all leaves active are reached',
  'files': [TA + 'tree_based_tensor.py'],
  'mechanism': [('node-wise operations on cores', TA + 'tree_based_tensor.py: __add__, kron, cat, tensor_matrix_product, dot_with_rank_one_metric, inactivate_nodes')],
  'note': NOTE + 'Trees of order 2-5, ranks and sizes at most 3.'},
 {'id': 'P03', 'title': 'Evaluating and differentiating a tree tensor equals its densification',
  'statement': 'For a tree based tensor with any pattern of active leaves, '
    'entries at multi-indices, diagonals, evaluations along some modes, '
    'partial evaluations above and below a node, squeezing, changing the '
    'root and removing unique children give the values of the full tensor, '
    'and the gradient with respect to a core, contracted with that core, '
    'gives back the evaluations. Operands are left unchanged.',
  'quantifier': 'all core entries, the listed trees of order 2-5, every node, patterns of inactive leaves',
  'why': 'learning runs reach a few shapes and compare only final errors',
  'files': [TA + 'tree_based_tensor.py'],
  'mechanism': [('partial contractions', TA + 'tree_based_tensor.py: eval_at_indices, eval_diag, eval_diag_below, eval_diag_above, parameter_gradient_eval_diag, squeeze, change_root, remove_unique_children')],
  'note': NOTE + 'Trees of order 2-5, ranks and sizes at most 3.'},
 {'id': 'P04', 'title': 'Orthogonalising a tree tensor keeps its value and yields orthonormal frames',
  'statement': 'orth and orth_at_node return the same tensor with the same '
    'shape, with all cores but that of the root (or node) orthonormal; the '
    'norm is that of the full tensor; Gramians are the inner products of the '
    'complementary functions of each node of the tensor returned with them, '
    'and the squared singular values of every node sum to the squared norm, '
    'nonnegative and sorted. The operand is left unchanged.',
  'quantifier': 'all core entries, the listed trees of order 2-4, patterns of inactive leaves, every node',
  'why': 'orthogonality and the operand being kept are never asserted',
  'files': [TA + 'tree_based_tensor.py', TA + 'full_tensor.py'],
  'mechanism': [('QR sweep and Gramians', TA + 'tree_based_tensor.py: orth, orth_at_node, gramians, singular_values, norm')],
  'note': NOTE + 'QR and SVD replaced by their contracts. Trees of order 2-4, ranks at most 2.'},
 {'id': 'P05', 'title': 'Truncation reaches its tolerance within the maximum rank',
  'statement': 'Truncated SVDs of matrices keep the smallest number of '
    'singular values reaching the relative tolerance in the requested '
    'Schatten norm, capped by the maximum rank and by hard or soft '
    'thresholding; HOSVD, tree (HSVD) and tensor-train truncations of full and tree '
    'tensors reach the relative Frobenius tolerance, respect the maximum '
    'ranks, are orthogonal projections of the input and report their own norm. '
    'Operands and the truncator itself are left unchanged.',
  'quantifier': 'all singular values and tolerances for matrices up to 3x3; all entries of all-orthogonal tensors of order 3-4, listed tolerances and ranks; generic entries without truncation',
  'why': 'one truncation of one function is run and its error printed',
  'files': [TT + 'tensor_algebra/tools/truncator.py'],
  'mechanism': [('rank selection and local tolerances', TT + 'tensor_algebra/tools/truncator.py: trunc_svd, hosvd, hsvd, ttsvd')],
  'note': NOTE + 'SVD/QR by contract, or exactly for matrices with disjoint row supports. Global error only for all-orthogonal tensors.'},
 {'id': 'P06', 'title': 'Canonical and diagonal tensors agree with their full tensors',
  'statement': 'For tensors in canonical and diagonal format, arithmetic, '
    'inner products and norms, mode products with matrices, vectors and '
    'diagonals, reductions, squeezing, (partial) diagonals, evaluations, '
    'orthogonalisation, parameter gradients, concatenation, Kronecker '
    'products and conversion to full and tree based format give what the '
    'same operation on the full tensor gives. Operands are left unchanged.',
  'quantifier': 'all factor and core entries, orders 1-4, mode sizes and ranks 1-3, all ordered pairs of modes, listed mode lists',
  'why': 'only canonical learning touches the canonical format, nothing compares it with the full tensor',
  'files': [TA + 'canonical_tensor.py', TA + 'diagonal_tensor.py'],
  'mechanism': [('factor-wise operations', TA + 'canonical_tensor.py: dot, eval_diag, tensor_matrix_product, tree_based_tensor'),
                ('operations on the diagonal', TA + 'diagonal_tensor.py: dot_with_rank_one_metric, eval_diag, kron')],
  'note': NOTE + 'Orders 1-4, sizes and ranks at most 3.'},
 {'id': 'P09', 'title': 'Multi-index sets agree with their set-theoretic definitions',
  'statement': 'Union, difference, intersection, selection and projection, '
    'margin, reduced margin, maximal elements, downward-closedness, envelope, '
    'order comparison, (weighted) norms, sorting, products, index conversion '
    'and the bounded-norm, hyperbolic-cross and low-order constructors '
    'return exactly the multi-indices (without repetition, in the documented '
    'order) given by their mathematical definition. Operands are left '
    'unchanged.',
  'quantifier': 'all index values, weights, sequences and norm bounds within the stated ranges',
  'why': 'only a few fixed product sets are built on the way',
  'files': [TT + 'tools/multi_indices.py'],
  'mechanism': [('set operations on arrays of rows', TT + 'tools/multi_indices.py: get_margin, get_reduced_margin, add_indices, intersect_indices, sort, with_bounded_norm')],
  'note': NOTE + 'Sets of at most 3 multi-indices, entries at most 3.'},
 {'id': 'P08', 'title': 'Dimension trees stay consistent under every construction and change',
  'statement': 'For every rooted tree, numbering of its nodes and assignment '
    'of dimensions to leaves, the parents, children, levels, ascendants, '
    'descendants and dimensions of each node agree with one another; trees '
    'compare equal exactly when the same sets of dimensions appear on the '
    'same levels; permuting dimensions, changing the root, adding a child, '
    'extracting a subtree and the trivial, linear, balanced and random '
    'constructors give a consistent tree over the expected dimensions. '
    'The original tree is left unchanged.',
  'quantifier': 'all rooted trees up to 4-5 nodes, all numberings and assignments of dimensions, all outcomes of the random draws over up to 4 dimensions',
  'why': 'only built-in trees with one numbering are used',
  'files': [TA + 'dimension_tree.py'],
  'mechanism': [('attributes recomputed from the adjacency matrix', TA + 'dimension_tree.py: _precompute_attributes, update_dims_from_leaves, change_root, random')],
  'note': NOTE + 'Trees of at most 4-5 nodes; plotting excluded.'},
 {'id': 'P22', 'title': 'Reorganising the tree of a tensor keeps the tensor',
  'statement': 'Exchanging two nodes of the tree of a tensor, permuting its '
    'leaves and the random searches for a cheaper tree return the same '
    'tensor on the reorganised tree, with admissible ranks and never more '
    'storage for the searches; exchanges of a node with its ascendants are '
    'rejected. The cost of an exchange is the size of the merged core, and '
    'ranks are reported admissible exactly when no core is compressible by '
    'its size. Operands and arguments are left unchanged.',
  'quantifier': 'all entries of tensors on the listed supports, all exchangeable pairs of nodes and permutations of leaves of the listed trees, all outcomes of the random draws, all ranks',
  'why': 'the searches run once on random data and only print the storage',
  'files': [TA + 'tree_based_tensor.py'],
  'mechanism': [('merging and splitting cores', TA + 'tree_based_tensor.py: permute_nodes, permute_leaves, nodes_permutation_cost, optimize_dimension_tree, is_admissible_rank')],
  'note': NOTE + 'Trees of order 3-5, mode size 2, supports with exactly known decompositions, at most 6 random draws.'},
 {'id': 'P10', 'title': 'Tensorization identifies a function with its tensorized version',
  'statement': 'For any base, resolution, dimension and ordering, the '
    'tensorization map sends points of the support to admissible digits '
    '(most significant first, in the order of the ordering type) and a '
    'remainder in its support, representing exactly that point; map and '
    'inverse map undo each other. A tensorized function takes at a point '
    'and at the tensorized point the value of the original function; '
    'integers and their digits convert into each other exactly.',
  'quantifier': 'all points, digits and bounds of uniform supports (all means and deviations of normals), bases 2-4, resolutions 1-4, dimensions 1-3',
  'why': 'one base and resolution with a random sample is run',
  'files': ['tensap/functions/tensorizer.py', 'tensap/functions/tensorized_function.py', 'tensap/tools/utils.py'],
  'mechanism': [('map and inverse map', 'tensap/functions/tensorizer.py: map, inverse_map, u2z, z2u'),
                ('digits', 'tensap/tools/utils.py: integer2baseb, baseb2integer')],
  'note': NOTE + 'Uniform cdf exact, normal cdf uninterpreted with its inverse. Rounding at cell boundaries excluded.'},
 {'id': 'P15', 'title': 'Measures, random variables and vectors agree with their laws',
  'statement': 'For uniform, normal, discrete and empirical random variables '
    'and Lebesgue and discrete measures, cdf, quantiles, density, support, '
    'mass, moments, shifts, transfers, discretizations, random draws and '
    'equality are those of the law with the given parameters, and Gauss '
    'rules integrate polynomials of degree 2n-1 exactly. Random vectors and '
    'product measures combine their components by independence, and '
    'marginals, transposes and duplicates keep the right components.',
  'quantifier': 'all parameters, points, probabilities, weights and polynomial coefficients; finite laws of 1-4 values, 1-3 components, Gauss rules of 1-3 points',
  'why': 'only printed or plotted',
  'files': ['tensap/functions/measures/' + x for x in ('random_variable.py', 'uniform_random_variable.py', 'normal_random_variable.py', 'discrete_random_variable.py', 'empirical_random_variable.py', 'random_vector.py', 'product_measure.py', 'discrete_measure.py', 'lebesgue_measure.py', 'random_multi_indices.py')],
  'mechanism': [('laws of random variables', 'tensap/functions/measures/random_variable.py: iso_probabilistic_grid, discretize, moment, transfer, gauss_integration_rule'),
                ('finite laws', 'tensap/functions/measures/discrete_random_variable.py: cdf, icdf'),
                ('products', 'tensap/functions/measures/product_measure.py, random_vector.py')],
  'note': NOTE + 'Normal cdf uninterpreted increasing; root finder by contract; Gauss nodes computed numerically, tolerance 1e-5.'},
 {'id': 'P11', 'title': 'Tensor grids and integration rules combine their factors',
  'statement': 'A full tensor grid holds every combination of the points of '
    'its factors, in the order of its multi-indices, and evaluates at the '
    'requested indices; a sparse grid holds the selected combinations. '
    'Integration rules sum weights times values; tensorized and product '
    'rules sum over the grid with the products of the weights; composite '
    'Gauss-Legendre rules integrate polynomials of degree 2n-1 exactly on '
    'each interval.',
  'quantifier': 'all points, weights, knots and polynomial integrands, 1-3 factors with 1-3 points, up to 3 intervals with 1-3 nodes',
  'why': 'two integrals are printed',
  'files': ['tensap/tools/grids.py', 'tensap/approximation/integration/integration_rules.py', 'tensap/tools/chebyshev_points.py', 'tensap/functions/sets/is_in.py'],
  'mechanism': [('grids', 'tensap/tools/grids.py: FullTensorGrid.array, SparseTensorGrid.array'),
                ('integration rules', 'tensap/approximation/integration/integration_rules.py: integrate, tensorize, weights_on_grid, gauss_legendre_composite')],
  'note': NOTE + 'Gauss nodes computed numerically, tolerance 1e-6.'},
 {'id': 'P12', 'title': 'Univariate polynomials are the orthonormal family of their measure',
  'statement': 'Hermite, Legendre, discrete, weighted and empirical families '
    'and their shifted versions evaluate, at any point and for any degrees '
    'in any order, to the polynomials of positive leading coefficient '
    'orthonormal for their measure, with exact derivatives of any order, '
    'coefficients, roots, domain and decomposition of the constant one. '
    'Moments of products and means, for their own or any other measure, are '
    'the exact integrals, and random evaluations are the values at the '
    'points drawn from the law. Canonical polynomials are the monomials.',
  'quantifier': 'all points in [-4, 4], all shifts, scalings and parameters of the measures, degrees up to 5 (8), derivatives of order up to 3, products of up to 4 polynomials',
  'why': 'no test evaluates a polynomial family',
  'files': ['tensap/functions/polynomials/orthonormal_polynomials.py', 'tensap/functions/polynomials/polynomials.py'],
  'mechanism': [('three-term recurrences', 'tensap/functions/polynomials/orthonormal_polynomials.py: polyval, dn_polyval, poly_coeff, recurrence_monic'),
                ('moments', 'tensap/functions/polynomials/polynomials.py: moment, mean')],
  'note': NOTE + 'Reference: Gram-Schmidt on exact rational moments; tolerance 1e-7 relative to the size of the coefficients.'},
 {'id': 'P13', 'title': 'Bases of univariate functions evaluate, differentiate and approximate exactly',
  'statement': 'Polynomial, sub-, delta, B-spline, dilated, piecewise '
    'polynomial and user-defined bases evaluate to the functions they '
    'denote and their derivatives, for any points, degrees and distinct '
    'increasing knots; Gram matrices and means are the exact integrals, '
    'products and orthonormalisations span what they should, and '
    'derivatives of polynomial bases are exact when the target basis can '
    'hold them. Interpolation matches every given value, and projections '
    'of any kind reproduce every function of the basis.',
  'quantifier': 'all points, coefficients, weights and values in boxes of size 3-4; degrees up to 5, up to 6 knots, splines of order 0-3, up to 4 basis functions',
  'why': 'only one polynomial projection is compared with its error',
  'files': ['tensap/approximation/bases/' + f for f in (
    'functional_basis.py', 'polynomial_functional_basis.py',
    'sub_functional_basis.py', 'BSplines_functional_basis.py',
    'piecewise_polynomial_functional_basis.py',
    'delta_functional_basis.py', 'user_defined_functional_basis.py',
    'functional_basis_array.py')],
  'mechanism': [('evaluation and derivation of bases', 'tensap/approximation/bases/*: eval, eval_derivative, derivative, kron, gram_matrix, mean'),
                ('interpolation and projections', 'tensap/approximation/bases/functional_basis.py: interpolate, projection, least_squares_projection')],
  'note': NOTE + 'Repeated knots excluded. Tolerance 1e-4 to 1e-8 for the rounded constants of the quadratures.'},
 {'id': 'P14', 'title': 'Bases of multivariate functions and expansions on them are exact',
  'statement': 'Tensor product bases (full or sparse) evaluate to the products of '
    'univariate functions their indices denote, whatever variables are kept, '
    'removed or permuted; their derivatives, means and Gram matrices (for any '
    'product measure) are exact. Expansions on them evaluate, differentiate, '
    'combine and project as linear combinations, and their means, variances '
    'and conditional expectations are the exact integrals. Interpolations on '
    'grids match every value and projections reproduce the space.',
  'quantifier': 'all points in [-3, 3], coefficients and values; products of 1-3 bases of 1-3 functions, every list of variables, values in R, R^2, R^(2x2)',
  'why': 'the tutorials only check that approximation errors are printed',
  'files': ['tensap/approximation/bases/' + f for f in (
    'functional_bases.py', 'full_tensor_product_functional_basis.py',
    'sparse_tensor_product_functional_basis.py',
    'functional_basis_array.py')],
  'mechanism': [('evaluation, selection of variables, integrals', 'functional_bases.py, *_tensor_product_functional_basis.py'),
                ('expansions', 'functional_basis_array.py: eval, eval_derivative, conditional_expectation, variance_conditional_expectation, projection')],
  'note': NOTE + 'Derivatives as bases only for index sets closed under derivation. Tolerance 1e-3 to 1e-7 for the rounded constants of the quadratures.'},
 {'id': 'P23', 'title': 'Functions given by a tensor on product bases are exact',
  'statement': 'A functional tensor (dense, canonical or tree based) evaluates '
    'to the contraction of its tensor with the values of its bases, at points, '
    'on grids and along any of its variables; its derivatives, gradients, '
    'means, inner products, variances and conditional expectations are those '
    'contractions with derivatives and integrals. Sums, products and multiples '
    'are pointwise, and the gradient with respect to any core (or two merged '
    'cores) contracted with the core gives the values back.',
  'quantifier': 'all values of the bases in [-3, 3] and tensor entries in [-4, 4]; orders 1-4, ranks 1-2, dense, canonical, tree based, every listed pattern of inactive leaves',
  'why': 'the tutorials only check that approximation errors are printed',
  'files': ['tensap/functions/functional_tensor.py'],
  'mechanism': [('evaluation, derivation, integrals', 'functional_tensor.py: eval, eval_derivative, mean, conditional_expectation'),
                ('gradients used by the learning algorithms', 'functional_tensor.py: parameter_gradient_eval, parameter_gradient_eval_dmrg')],
  'note': NOTE + 'Not covered: partial evaluation of tree based tensors (not implemented), gradients when all leaves are inactive, products of canonical tensors.'},
 {'id': 'P20', 'title': 'Functions evaluate to themselves however they are wrapped or stored',
  'statement': 'A function that stores its evaluations returns, for any '
    'history of evaluations at repeated or new points, the values of the '
    'function, and does not evaluate stored points again. Freezing variables, '
    'evaluation on grids, random evaluation, composition along a tree, '
    'tensorization and wrapping (several outputs, one point at a time, '
    'strings) give the values of the function at the points they denote, and '
    'test errors are the relative errors at the test points.',
  'quantifier': 'all polynomial functions with free coefficients, all points, every list of frozen variables, histories of up to four evaluations',
  'over': ['inputs', 'histories'],
  'why': 'stored and partial evaluations are never called',
  'files': ['tensap/functions/' + f for f in (
    'function.py', 'user_defined_function.py',
    'compositional_model_function.py', 'tensorized_function.py')],
  'mechanism': [('stored evaluations', 'function.py: store_eval, __call__'),
                ('restriction and grids', 'function.py: partial_evaluation, eval_on_tensor_grid, test_error'),
                ('composition', 'compositional_model_function.py: eval')],
  'note': NOTE + 'Up to 3 variables, 4 evaluations; test errors with 2 points.'},
 {'id': 'P16', 'title': 'Least-squares learning returns the minimizer and honest errors',
  'statement': 'Least-squares learning returns coefficients satisfying the '
    '(weighted) normal equations for each output, leaving the data untouched. '
    'Leave-one-out and k-fold errors are those of the models refitted without '
    'the left-out samples, corrected as documented. Basis adaptation and '
    'regularization return, among the least-squares solutions on the '
    'patterns of the path, one of smallest estimated error, and the loss '
    'functions are the means they are defined to be.',
  'quantifier': 'all full-rank basis matrices, outputs, positive weights and regularization paths of the given sizes',
  'over': ['inputs', 'configurations'],
  'why': 'shortcut formulas replace the refits and no test compares them',
  'files': ['tensap/approximation/learning/' + f for f in (
    'linear_model_learning.py', 'linear_model_learning_square_loss.py',
    'loss_functions.py')],
  'mechanism': [('solution', 'linear_model_learning_square_loss.py: solve, _solve_standard'),
                ('error estimates', 'linear_model_learning_square_loss.py: _solve_standard, leave-one-out and k-fold'),
                ('selection', 'linear_model_learning_square_loss.py: _select_optimal_path, _solve_regularized'),
                ('losses', 'loss_functions.py: eval, risk_estimation, test_error')],
  'note': NOTE + 'scikit-learn is replaced by a solver returning any path; 2-4 samples, 1-3 functions, 1-2 outputs.'},
 {'id': 'P17', 'title': 'L2 density learning minimizes the risk and selects by refitted risk',
  'statement': 'Density learning returns the minimizer of the empirical L2 '
    'risk, relative to a reference density when one is given. The leave-one-out '
    'error is the mean risk of the densities refitted without each sample, and '
    'adaptation, regularization and early stopping return the candidate with '
    'the smallest such error. Coefficients asked to be included always are, '
    'and the others are kept in decreasing order of magnitude.',
  'quantifier': 'all basis evaluations and reference coefficients of the given sizes, every order of the coefficients',
  'over': ['inputs', 'configurations'],
  'why': 'closed formulas replace the refits; no test covers reference densities or included coefficients',
  'files': ['tensap/approximation/learning/linear_model_learning_density_l2.py',
            'tensap/approximation/learning/loss_functions.py'],
  'mechanism': [('solution and error', 'linear_model_learning_density_l2.py: _solve_standard'),
                ('selection', 'linear_model_learning_density_l2.py: _select_optimal_path, _solve_regularized')],
  'note': NOTE + '2-4 samples, 1-3 functions, paths of up to 6 patterns.'},
 {'id': 'P18', 'title': 'Model selection follows the minimizers of the penalized risk',
  'statement': 'For every penalization factor, model selection returns a model '
    'minimizing empirical risk plus penalization; its path of factors is '
    'increasing and each model of the path is optimal between its value and the '
    'next, ties and dominated models included. The slope heuristic returns the '
    'gap factor times the value of the largest jump of complexity and an optimal '
    'model for it. Complexities count the parameters of the models.',
  'quantifier': 'all risks, penalization values and gap factors for up to three models (four in the thorough tier)',
  'over': ['inputs', 'configurations'],
  'why': 'optimality over a continuum of factors, with ties, is never tested',
  'files': ['tensap/approximation/tools/model_selection.py'],
  'mechanism': [('penalized risk and path', 'model_selection.py: m_lambda, lambda_path'),
                ('slope heuristic', 'model_selection.py: slope_heuristic'),
                ('complexities', 'model_selection.py: complexity, complexity_tree_based_tensor')],
  'note': NOTE + '1-3 models (thorough: 4), complexities in every listed order, penalization of any values.'},
 {'id': 'P19', 'title': 'Magic points are greedy and sampled approximations are exact',
  'statement': 'Magic indices are distinct and each maximizes the residual of the '
    'interpolation on those before it; magic points of bases come with their '
    'Lebesgue constant. Principal components computed from samples of a rank-one '
    'tensor or function are orthonormal and span its unfoldings. The Tucker, '
    'tensor-train and tree-based approximations built from the same samples '
    'reproduce the tensor, or the function, everywhere and count its evaluations.',
  'quantifier': 'all small matrices, rank-one tensors and products of functions, all outcomes of the random samples',
  'over': ['inputs', 'configurations'],
  'why': 'tests compare one random function within a tolerance, never the samples in between',
  'files': ['tensap/linear_algebra/magic_indices.py'],
  'mechanism': [('greedy indices', 'magic_indices.py: magic_indices'),
                ('points', 'functional_basis.py, functional_bases.py: magic_points, interpolation_points'),
                ('components', 'tensor_principal_component_analysis.py: alpha_principal_components, hopca'),
                ('formats', 'tensor_principal_component_analysis.py: tucker_approximation, tt_approximation, tree_based_approximation'),
                ('functions', 'functional_tensor_principal_component_analysis.py: _prepare, _project')],
  'note': NOTE + 'matrices up to 3 x 2 and 2 x 3, rank-one tensors of orders 2 and 3 (2 x 2 x 2, 2 x 1 x 3), products of two univariate functions of degree 1.'},
 {'id': 'P21', 'title': 'Tensor learning solves the right local problems',
  'statement': 'Each local linear problem of the learning in tree-based or canonical '
    'format evaluates the approximation as a function of the parameter it updates, '
    'and a new parameter changes that parameter only. Alternating minimization, '
    'rank adaptation and greedy construction stop, report and select iterates as '
    'documented for every sequence of errors and stagnations, and fit corrections '
    'to the residual. Selected ranks are admissible, with as many requests met as '
    'possible and the largest singular values first.',
  'quantifier': 'all small trees, evaluations of bases, parameters, sequences of errors and stagnations, outcomes of the random choices',
  'over': ['inputs', 'histories', 'configurations'],
  'why': 'tests only compare the final error of a few runs with a threshold',
  'files': ['tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py'],
  'mechanism': [('local problems', 'tree_based_tensor_learning.py, canonical_tensor_learning.py: prepare_alternating_minimization_system, set_parameter'),
                ('loops', 'tensor_learning.py: _solve_standard, _solve_adaptation'),
                ('greedy', 'canonical_tensor_learning.py: _solve_greedy'),
                ('ranks', 'tree_based_tensor_learning.py: new_rank_selection, make_ranks_admissible, enriched_edges_to_ranks_random'),
                ('starts', 'tree_based_tensor_learning.py, canonical_tensor_learning.py: initialize')],
  'note': NOTE + 'orders 2 and 3, dimensions and ranks up to 2, 2 samples, up to 4 iterations (5 in the thorough tier).'},
]
NOT_APPLICABLE = []
