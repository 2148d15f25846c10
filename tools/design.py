"""How each property is decided (text of DESIGN.md)."""
HOW = {
 'P01': ('every public operation of FullTensor on arrays of free reals; '
   'oracle: loops over entries (numpy object arithmetic); mode lists '
   'enumerated, orth by the QR contract', 2),
 'P02': ('both operands are tree tensors with free cores; the result is '
   'densified by an independent contraction of its cores (`common.ref_full`) '
   'and must be the polynomial given by the same operation on the '
   'densifications', 20),
 'P03': ('as P02, with evaluations at index lists, diagonals, partial '
   'contractions at every node and gradients contracted with the core', 5),
 'P04': ('QR and SVD by contract; the value is kept and frames are '
   'orthonormal modulo the ideal of the contracts; Gramians against explicit '
   'contractions of the complement', 15),
 'P05': ('rank selection for free singular values (svd by contract); global '
   'error of the tensor truncations on symbolic all-orthogonal tensors whose '
   'decompositions are exact, so that the tolerance bound is decided for all '
   'values, tolerances and norms', 60),
 'P06': ('free factors and weights; oracle: explicit sum of outer products',
   5),
 'P08': ('the parent relation of the tree and the assignment of dimensions '
   'are symbolic integers, so each case covers every tree and numbering with '
   'that many nodes; oracle: definitions by ancestors on plain lists', 58),
 'P09': ('entries of the multi-indices are symbolic integers; oracle: set '
   'comprehension over the bounded box', 18),
 'P10': ('digits, points and coordinates free; oracle: positional '
   'representation and the affine maps of the intervals', 32),
 'P11': ('free points and weights; oracle: explicit products and sums', 8),
 'P12': ('free points and parameters; oracle: recurrences from exact moments '
   '(orthonormality is decided with exact moments of each measure)', 7),
 'P13': ('free points, coefficients and knots; oracle: the piecewise '
   'polynomial or trigonometric/wavelet definition, least squares through '
   'the normal equations', 8),
 'P14': ('free points, coefficients and values; oracle: products of the '
   'univariate references and exact sums of integrals', 18),
 'P15': ('free parameters and points; normal law uninterpreted with its '
   'inverse; moments against closed formulas; random draws symbolic', 30),
 'P16': ('basis matrices, outputs and weights are free; pseudo-inverses, QR '
   'and solves are exact rational functions (elimination steps each certified '
   'by z3); oracle: Cramer\'s rule on the normal equations of the refitted '
   'problems', 30),
 'P17': ('basis evaluations and reference coefficients are free; every order '
   'of the coefficients and every argmin is a path; oracle: the risk of the '
   'refitted densities', 35),
 'P18': ('risks, penalizations and factors are free; every outcome of the '
   'comparisons is a path; optimality on an interval is checked at both ends '
   '(the difference of two penalized risks is affine)', 40),
 'P19': ('entries, factors and points are free, every choice of pivot and '
   'outcome of the draws is a path; oracle: cross interpolation by minors, '
   'the products of the factors', 70),
 'P20': ('polynomial functions with free coefficients; a history of calls at '
   'symbolic points that may or may not coincide is explored for every '
   'pattern of coincidences and compared with the polynomial', 40),
 'P21': ('evaluations of bases, parameters, errors, stagnations and singular '
   'values are free and the coefficients returned by the local solvers are '
   'unconstrained symbols; every loop exit and random choice is a path; '
   'oracle: direct contraction of the full tensor, sequential definitions of '
   'the loops', 15),
 'P22': ('permutations and searches on tensors with symbolic entries on '
   'fixed supports (decompositions exact); random steps explored for all '
   'outcomes; the densified result must be the operand', 60),
 'P23': ('the bases are `Any`: tables of free values, derivatives, means and '
   'Gram matrices, so the result holds for every basis; oracle: explicit '
   'contraction with the entries', 62),
}

TAIL = '''
## Not claimed

Scoped out because the code declares it not implemented, because it is a
numerical convergence statement with no bound the solver can decide, or
because the routine needed has no exact rule here:

* convergence or accuracy of the iterative learning algorithms, of iterative
  optimisers (cvxpy-like solvers are absent), of `lars`/`Lasso` from
  scikit-learn: third-party numerical code outside the repository;
* floating point rounding;
* plotting and printing;
* partial evaluation of tree based functional tensors, `matdiv` of
  FunctionalBasisArray, derivatives of FullTensorProductFunctionalBasis,
  products of canonical tensors: not implemented by tensap;
* `Truncator` thresholds above every singular value (tensap raises), gradients
  of tree tensors when every leaf is inactive (raises), repeated spline knots.
'''
