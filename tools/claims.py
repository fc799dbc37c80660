CLAIMED.update({
 "C01": ("relational (scale-degree) analysis", "The image of every loop state, branch condition and result under X -> cX is derived symbolically for all c>0, n, p."),
 "C02": ("relational (rotation) analysis", "The image of every loop state, branch condition and result under x -> Wx is derived for all unitary W, n, p."),
 "C03": ("dependence analysis of the sample axis", "In every result, condition and loop state the sample index is bound by a sum or used elementwise."),
 "C04": ("relational (per-sample factor) analysis", "The image of every state under x_k -> d_k x_k is derived for all factors."),
 "C06": ("Hermitian / positive semi-definite fact inference", "Definiteness is inferred from the structure M M^H of every returned normal form, loop states by induction."),
 "C07": ("normal-form evaluation of trace, determinant and first entry of the result", "For every path that returns."),
 "C09": ("value-number equality with the reference map", "The generic iteration equals the t maximum-likelihood map as a normal form."),
 "C10": ("value-number equality with the reference map", "The generic iteration equals the Huber map as a normal form."),
 "C12": ("value-number equality with the reference map", "The generic iteration equals Tyler's map as a normal form."),
 "C05": ("growth-order analysis of the influence of one sample", "The order of growth of every term of the generic iteration in the size of one sample is bounded by that of the Gaussian part of the map being O(1)."),
 "C08": ("loop-contract analysis (inductive integer invariants, exit-path conditions, log events)", "Every exit of every fitting loop is examined: budget, warning, published counters."),
 "C11": ("value-number equality with the negative log-likelihood", "Normal forms of every form of the cost, plus path analysis of the dimension check."),
 "C13": ("value-number equality with the Hermitian second moment", "Both centring modes, location and single-vector input."),
 "S01": ("value-number equality of the loop step with the MM map, auxiliary variables removed by induction", "Generic iteration of function and class."),
 "S02": ("value-number equality of cost and gradient with closed forms", "Cost and gradient reaching the solver, both centring modes."),
 "S03": ("path and typestate analysis of refusals", "Every path under each impossible configuration raises with fitted attributes untouched; no path of a valid one raises."),
 "E01": ("typestate analysis of fit over the fitted attributes", "Every path of fit of every estimator, and every inherited method afterwards."),
 "E02": ("relational analysis of two fits (liveness of earlier state, aliasing of copies)", "A second fit on an object with arbitrary earlier state is compared with a fresh fit, as normal forms."),
 "E03": ("constructor/parameter dataflow analysis, ownership of stored callables", "Every parameter of every estimator class, with a symbolic value."),
 "E05": ("value-number equality of batch element i with a fresh fit of element i", "Generic batch element, generic batch size, serial and parallel paths."),
 "E06": ("typestate analysis of the container over symbolic operation sequences", "Sequences of appends, refused appends and observations of symbolic length."),
 "E07": ("call-signature compatibility of overrides against call sites in the base classes", "Every overridden public or private method against every call in the installed base class."),
 "M01": ("value-number equality of composed mappings, path analysis of refusals", "Generic vectors, data matrices, matrices and stacks, both directions."),
 "M02": ("value-number equality of second moments and quadratic forms", "Data and covariance mapping related through generic Z, C, z."),
 "D01": ("dataflow analysis from public methods to scipy call sites", "Location, scatter, points and limits at every scipy call, for every real/complex combination."),
 "D02": ("option-flow (call-argument binding) analysis", "Every option by keyword and position against the argument bound at the scipy call."),
 "G01": ("value-number equality with the manifold's constraints, definiteness inference", "Every operation of the three manifolds on a generic point, single, k=2 and any k."),
 "G02": ("relational (congruence) analysis of normal forms", "Image of every operation under a generic congruence, and identities between operations."),
 "G03": ("value-number equality of composed operations", "Round trips, first and second order, and the pairing of gradient and Hessian conversions with the metric."),
 "G04": ("value-number equality with the weighted combination of the factors", "Symbolic weights, every pair of factor manifolds, every inherited operation."),
 "G05": ("value-number equality with the documented elliptical metric", "inner, gradient conversion, randvec, dist with symbolic a, b, alpha."),
 "G06": ("constant propagation of declared dimensions", "Symbolic n and k, products."),
 "U01": ("backend-consistency analysis of the operations applied to traced values", "Every function with the switch and every function the estimators give to autograd."),
 "U02": ("name resolution of random sources, typestate of the generator over every exit", "Every reference to a random source in the package; every exit of the temp_seed block."),
 "U03": ("value-number equality in the spectral normal form", "Generic HPD matrix, exponents and unitary matrix."),
 "U04": ("value-number equality of index maps (entry by entry)", "Generic entry of a generic matrix, real and complex."),
 "X01": ("shape, dtype and second-moment analysis of generator normal forms", "Moments are computed from the normal form over independent draws, for generic parameters."),
 "O01": ("value-number equality of the update step, loop analysis of fit", "Generic state, sample, step index; plain and product gradients."),
 "C14": ("value-number equality of score, mahalanobis, error_norm and get_precision with their definitions", "Every estimator, fitted on generic data, evaluated on generic test data; state compared before and after."),
 "E04": ("effect and alias analysis (ownership roots carried through views, attributes, containers and loops)", "Every public function and method, two calls in sequence, every write tested against the owners of the memory."),
})
