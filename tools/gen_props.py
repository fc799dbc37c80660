#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when a property is reworded)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["robuststats/" + f for f in files],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=None)))
COV, STR, BASE = "estimation/covariance.py", "estimation/structured.py", "estimation/base.py"
MAN, MAP, PRB, CST = "models/manifolds.py", "models/mappings.py", "models/probability.py", "models/cost.py"
LIN, GEN, BCK, CHK, MC = "utils/linalg.py", "utils/generation_data.py", "utils/backend.py", "utils/checking.py", "utils/montecarlo.py"
ONL = "online/estimation.py"
FP = [("fixed-point iterations huber_m_estimator_fixed_point, student_t_mle_fixed_point, tyler_shape_matrix_fixedpoint and their complex_ twins", "robuststats/" + COV)]

p("C01", "Covariance estimates scale with the square of the data",
  "Multiplying every sample by one constant c>0 (and a supplied starting matrix by c^2) multiplies the covariance estimated by the Huber, Student-t, un-normalised Tyler and empirical estimators, real and complex, by exactly c^2, and leaves the normalised Tyler and the Kronecker MM estimates unchanged. The same number of iterations is run and the same final error is reported, so neither the estimate nor the stopping rule depends on the measurement unit.",
  ["inputs", "configurations"], "for every data matrix, every c>0, every tuning value (q, df, tol, iter_max, normalisation) and every starting matrix",
  "The tests fit one or two Gaussian samples of one size at one scale; no test ever compares two scales, and a handful of scales could not settle it for all.",
  [COV, STR, BASE], FP + [("relative stopping criterion |new-old|/|old|", "robuststats/" + COV), ("estimation_cov_kronecker_MM", "robuststats/" + STR)],
  ["covariance_, err_, iteration_ after fit", "return values of the *_fixed_point functions"])
p("C02", "Estimates are equivariant under rotations of the feature space",
  "Replacing every sample x by Wx, with W orthogonal for real data and unitary for complex data (and a supplied starting matrix S by W S W^H), replaces the estimate C of the empirical, Huber, Student-t and Tyler estimators (normalisation None, trace or determinant) by W C W^H with the same error and iteration count. For the Kronecker MM estimator the same holds with W the Kronecker product of two unitary matrices, which rotate the two factors separately.",
  ["inputs", "configurations"], "for every data matrix and every orthogonal/unitary W", 
  "No test applies a rotation; the tests only compare against one true covariance with a tolerance of order one.",
  [COV, STR, BASE, LIN], FP + [("matrix functions through an eigendecomposition with conjugate-transposed eigenvectors", "robuststats/" + LIN), ("estimation_cov_kronecker_MM", "robuststats/" + STR)],
  ["covariance_, A_, B_"])
p("C03", "Estimates do not depend on the order of the samples",
  "Reordering the rows of the data matrix leaves the result of every batch covariance estimator (empirical, Huber, Student-t, Tyler, Kronecker MM) and of the Tyler and Kronecker-Student cost functions and gradients unchanged. Every sample contributes, and with the same weight function.",
  ["inputs"], "for every data matrix and every permutation of its rows",
  "No test permutes the samples; a summation that drops or repeats one sample changes a 1000-sample estimate by less than the tests' tolerance.",
  [COV, STR, BASE, CST], FP + [("loops over samples of estimation_cov_kronecker_MM and of the Kronecker gradient", "robuststats/" + STR)],
  ["covariance_, cost and gradient values"])
p("C04", "Tyler-type estimators ignore the amplitude and phase of each sample",
  "For a given starting matrix, multiplying each sample by its own non-zero factor (any positive real; any complex number for the complex versions) leaves every iterate of the Tyler fixed-point estimators and of the Kronecker MM estimator unchanged. The Tyler estimates therefore depend on the directions of the samples only and are distribution-free over the compound-Gaussian (elliptical) family.",
  ["inputs"], "for every data matrix, every vector of per-sample factors and every starting matrix",
  "The tests use Gaussian or one Student-t sample and a loose tolerance; none rescales individual samples.",
  [COV, STR, CST], [("weights 1/(x^H S^-1 x) in the Tyler iterations", "robuststats/" + COV), ("ratio M/trace(A^-1 M) in estimation_cov_kronecker_MM", "robuststats/" + STR)],
  ["return value of the fixed-point functions with init given"])
p("C05", "One arbitrarily large sample has bounded influence on robust estimators",
  "For a given current scatter matrix, letting the amplitude of a single sample grow without limit cannot make the next iterate of the Huber, Student-t, Tyler or Kronecker MM estimators grow without limit, whatever the other samples, for real and complex data. No other part of an iteration (a mean, a norm, a cost) reintroduces an unbounded dependence on one sample.",
  ["inputs", "configurations"], "for every data set, every index of the corrupted sample and every q<1, df>0",
  "Tests contain no outlier, and a finite outlier could not distinguish bounded from slowly growing.",
  [COV, STR], [("weight functions of the M-estimators (decreasing at least like 1/t)", "robuststats/" + COV), ("estimation_cov_kronecker_MM", "robuststats/" + STR)],
  ["covariance_ after one iteration from a given init"])
p("C06", "Every estimated covariance is Hermitian and positive semi-definite",
  "In exact arithmetic every matrix returned as a covariance by the empirical, Huber, Student-t, Tyler (fixed-point) and Kronecker MM estimators is Hermitian (symmetric when real) positive semi-definite for every data set with at least one sample, at every iteration at which the loop can stop. The complex natural-gradient Tyler estimate is Hermitian whatever the solver returns.",
  ["inputs", "configurations"], "for every data matrix, starting HPD matrix and stopping iteration",
  "A test observes a few converged outputs; definiteness must hold for every input and exit iteration.",
  [COV, STR, BASE], FP + [("weighted sums of x x^H", "robuststats/" + COV)], ["covariance_"])
p("C07", "The requested normalisation of a shape matrix is met exactly",
  "When a Tyler estimator, real or complex, fixed-point or natural gradient, is asked for normalisation 'trace', 'determinant' or 'element', the returned shape matrix has trace equal to its size, determinant one, or first diagonal element one, whatever the data, initialisation and number of iterations. With 'None' the iterate is returned unscaled.",
  ["inputs", "configurations"], "for every data set, starting point, iteration budget and normalisation name",
  "The tests of the normalisation function use a few matrices; that every return path applies it to the final iterate, once, is a statement about all paths.",
  [COV], [("get_normalisation_function and the final division by S(sigma)", "robuststats/" + COV)], ["covariance_", "return values of the tyler functions"])
p("C08", "Iterative estimators stop within budget and report how they stopped",
  "Each fixed-point/MM estimator performs at most iter_max iterations; the error it reports is the relative change between the last two iterates and the iteration count is the number of updates actually performed. It stops before iter_max only when that error is at most tol, and when it stops with an error above tol a message is logged; the covariance estimators expose these very numbers as err_ and iteration_ after fit.",
  ["inputs", "configurations", "histories"], "for every data set, tol and iter_max>=1",
  "Tests run converging problems with the default budget; the reported error is never compared with anything.",
  [COV, STR], FP + [("loop of estimation_cov_kronecker_MM", "robuststats/" + STR)], ["err_, iteration_", "returned tuple (.., delta, iteration)", "log records"])
p("C09", "Student-t estimators iterate the likelihood equation of their model",
  "One iteration of the centred Student-t estimator maps S to (1/N) sum_k w_k x_k x_k^H with w_k=(df+p)/(df+x_k^T S^-1 x_k) for real data and w_k=(df+2p)/(df+2 x_k^H S^-1 x_k) for complex circular data, i.e. the stationarity equation of the multivariate t (respectively complex t) log-likelihood with the df the user gave. Consequently the limit is a maximum-likelihood scatter for that df and a sample whose Mahalanobis distance equals p has weight one.",
  ["inputs", "configurations"], "for every data matrix, scatter matrix and df>0",
  "The tests accept any matrix within a relative distance of about one half of the truth, which even estimators with the wrong df satisfy.",
  [COV], [("weights in student_t_mle_fixed_point and complex_student_t_mle_fixed_point", "robuststats/" + COV)], ["return value with iter_max=1 and init given"])
p("C10", "Huber estimators down-weight outliers with the documented threshold",
  "One iteration of the Huber estimator maps S to (1/(N beta)) sum_k min(1, lambda/t_k) x_k x_k^H with t_k = x_k^H S^-1 x_k: samples with t_k <= lambda get full weight, others weight lambda/t_k. lambda and beta are those that make the estimator consistent at the Gaussian distribution for quantile q: lambda=chi2inv(q,p), beta=chi2cdf(lambda,p+2)+lambda(1-q)/p for real data; lambda=chi2inv(q,2p)/2, beta=chi2cdf(2 lambda,2p+2)+lambda(1-q)/p for complex data.",
  ["inputs", "configurations"], "for every data matrix, scatter matrix and 0<q<1",
  "Tests use clean Gaussian data for which most weights are one and a tolerance that hides a wrong constant.",
  [COV], [("_huber_m_estimator_function and its use in the Huber fixed points", "robuststats/" + COV)], ["return value with iter_max=1 and init given"])
p("C11", "The Tyler cost is the negative log-likelihood, invariant to scale and basis",
  "Tyler_cost_real and Tyler_cost_complex equal p*sum_k log(x_k^H Q^-1 x_k) + n*log det Q for every HPD Q, in numpy and in autograd mode alike. Hence the cost is unchanged when Q is multiplied by a positive constant, shifts by a Q-independent constant when samples are rescaled, is unchanged by a joint unitary change of basis, and mismatching dimensions are refused with an error.",
  ["inputs", "configurations"], "for all data, all HPD matrices, both backends",
  "Tests check only that the value is a real scalar and that a derivative exists.",
  [CST, LIN, BCK], [("Tyler_cost_real / Tyler_cost_complex", "robuststats/" + CST)], ["return value"])
p("C12", "Tyler estimators iterate Tyler's fixed-point equation",
  "One iteration of the Tyler fixed-point estimator, real or complex, maps S to (p/N) sum_k x_k x_k^H / (x_k^H S^-1 x_k), so every fixed point solves Tyler's equation and a sample's weight is the inverse of its squared Mahalanobis norm under the current S. The default start is the empirical second-moment matrix of the data and a supplied init is used as given.",
  ["inputs", "configurations"], "for every data matrix and every positive definite S",
  "The tests check closeness to one true matrix after convergence with a loose tolerance.",
  [COV], [("tyler_shape_matrix_fixedpoint, complex_tyler_shape_matrix_fixedpoint", "robuststats/" + COV)], ["return value with iter_max=1 and init given"])
p("C13", "The empirical covariance of complex data is the Hermitian second moment",
  "For complex data the empirical covariance is (1/N) sum_k x_k x_k^H when centring is assumed and (1/N) sum_k (x_k-m)(x_k-m)^H with m the sample mean otherwise, entry (i,j) being E[x_i conj(x_j)]; the fitted location_ is zero, respectively m. A single sample given as a vector is treated as one row.",
  ["inputs", "configurations"], "for every complex data matrix and both centring modes",
  "Tests compare against one generated covariance; conjugation and centring conventions must hold for every input.",
  [BASE], [("complex_empirical_covariance, ComplexEmpiricalCovariance.fit", "robuststats/" + BASE)], ["return value", "covariance_, location_"])
p("C14", "Fitted estimators are evaluated under the model they fitted",
  "After a fit, score(X_test) is the log-likelihood of the test data under the fitted model: the mean Gaussian (circular complex Gaussian for complex data) log-likelihood for the empirical and Tyler estimators, the summed Student-t log-density with the fitted location, scatter and degrees of freedom for the Student estimators, Kronecker-structured or not. mahalanobis(X) is the squared distance to the fitted location, error_norm the chosen norm of the difference with a comparison covariance (scaled and squared as asked), get_precision the inverse of the covariance. None of them changes the fitted state. A score that is not available, an unknown norm or an unfitted estimator is refused or logged as an error, never answered silently.",
  ["inputs", "configurations"], "for every fitted estimator, every test set and every comparison covariance",
  "Tests print the score of one fit without comparing it to anything.",
  [BASE, COV, STR], [("score, mahalanobis, error_norm and get_precision of the estimators", "robuststats/estimation")], ["value returned", "fitted attributes", "error or log record"])
p("S01", "Kronecker MM fits covariance = kron(A, B) in that order, without conjugation",
  "With samples whose covariance is kron(A,B), A of size a and B of size b, one MM step maps the factors to geometric means of the old factor and of the weighted second moments of the samples reshaped so that the slow index belongs to A and the fast one to B; the fixed point satisfies the Tyler-Kronecker likelihood equations for A and for B themselves (neither conjugated nor swapped). The covariance exposed is exactly kron(A_, B_) of the exposed factors.",
  ["inputs", "configurations"], "for all complex data matrices, all factor sizes a, b and all current factors",
  "Tests use one pair of sizes and a tolerance larger than the distance between A and its conjugate.",
  [STR], [("estimation_cov_kronecker_MM; KroneckerEllipticalMM.fit", "robuststats/" + STR)], ["A_, B_, covariance_"])
p("S02", "The Kronecker-Student gradient is the derivative of its cost",
  "The Euclidean gradient handed to the solver by the Kronecker Student-t estimator is, for every pair of HPD factors, the derivative of the t negative log-likelihood of the data with respect to A and to B, up to one common positive factor; it is centred on the location given, and both parts are Hermitian matrices of the right size.",
  ["inputs", "configurations"], "for all data, factors, df and locations",
  "The test only checks that a gradient of the right shape exists.",
  [STR], [("_generate_egrad_function_kronecker_student, _generate_cost_function_kronecker_student", "robuststats/" + STR)], ["egrad(A, B)"])
p("S03", "Impossible configurations are refused with an error, never fitted",
  "Non-positive degrees of freedom, factor sizes whose product is not the number of features, an unknown estimation method, an unknown score model, mismatching dimensions in the Tyler cost, a non-positive Huber threshold and non-square covariances make the call raise an exception before any result is produced or any fitted attribute is changed. Valid configurations never trigger these refusals.",
  ["inputs", "configurations"], "for every invalid and every valid value of these parameters",
  "Tests never pass an invalid configuration.",
  [COV, STR, CST, MAP], [("guards at the top of each estimation function", "robuststats/" + COV)], ["exceptions raised"])
p("E01", "fit publishes a complete, consistent state and returns the estimator",
  "Every estimator's fit, on every path that does not raise, returns the estimator itself and leaves covariance_, precision_ (the inverse of covariance_ if storing it is enabled, None otherwise) and location_ set from this very fit, plus err_/iteration_ for the iterative covariance estimators and A_/B_ for structured ones. Inherited methods that need those attributes (mahalanobis, score, get_precision, error_norm) therefore work after any successful fit.",
  ["inputs", "configurations", "histories"], "for every estimator class, every fit path and every constructor setting",
  "Tests call fit with default settings and read covariance_ only.",
  [BASE, COV, STR, ONL], [("fit methods; _set_covariance", "robuststats/" + BASE)], ["attributes after fit"])
p("E02", "A fit depends only on its arguments and the current hyper-parameters",
  "Fitting twice, fitting after another fit, or fitting a copy gives the result that a freshly constructed estimator with the same current hyper-parameters gives: no state of an earlier fit (estimates, counters, cached functions) is read. Every hyper-parameter given at construction or through set_params is the one in force at the next fit, fit never changes a hyper-parameter, and the work done on a copy never touches the original.",
  ["histories", "configurations"], "for every sequence of construct, set_params, copy and fit calls",
  "Tests fit each object once with constructor parameters only.",
  [BASE, COV, STR, ONL], [("constructor attributes and their use in fit", "robuststats/" + COV)], ["covariance_ after a second fit"])
p("E03", "Estimators honour scikit-learn's parameter protocol",
  "For every estimator and transformer class get_params returns every constructor argument under its own name with the value given, so clone, set_params and repr work; constructors store their arguments unchanged and copying or pickling a (fitted) estimator never carries a reference that keeps the copy tied to the original object; estimators stay picklable (no function created at run time is stored on them).",
  ["configurations", "histories"], "for every public estimator class and every constructor argument",
  "No test clones, pickles or re-parametrises an estimator.",
  [BASE, COV, STR, ONL], [("__init__ signatures and attribute assignments", "robuststats/" + COV)], ["get_params(), clone(), copy.deepcopy(), pickle.dumps()"])
p("E04", "No public function modifies the arrays it is given",
  "Data matrices, starting points, covariances, tangent vectors and parameter lists passed by the caller to an estimator, mapping, cost, distribution, manifold operation or container (or returned by a function the caller supplies, such as the gradient of the online estimator) are never written to, on any path, nor is later in-place work done on an array that shares memory with them. Results handed out by an earlier call are not modified by later calls either.",
  ["inputs", "histories"], "for every public function and every argument",
  "Tests never compare arguments before and after a call; aliasing bugs show only on particular input types.",
  [BASE, COV, STR, MAN, MAP, PRB, CST, LIN, ONL], [("functions that build new arrays instead of updating in place", "robuststats")], ["argument contents after the call"])
p("E05", "Batch transformers treat every batch element independently and in order",
  "CovariancesEstimation and FeaturesEstimation return, at position i, exactly what fitting a fresh copy of the given estimator on batch element i gives, for every batch size and for serial and parallel execution alike. The user's estimator is left unfitted and unmodified, and the values are returned without loss (an integer batch is not truncated, complex covariances keep their imaginary part).",
  ["inputs", "configurations", "histories", "schedules"], "for every batch length >= 1, every estimator, every n_jobs",
  "Tests use one batch of floats with each of two job counts and compare only loosely.",
  [BASE], [("CovariancesEstimation.transform, FeaturesEstimation.transform, _fit_transform_covariance_copy", "robuststats/" + BASE)], ["array returned by transform"])
p("E06", "The feature container holds exactly what was appended",
  "After any sequence of appends, length, shape, indexing, export, vectorised form and printed form of the feature array reflect all appended items in order and nothing else: rows reserved for future growth never appear and the caller's array is not aliased. An append that is refused (wrong type, dtype, dimension, number of components or inconsistent lengths) leaves the container as it was.",
  ["histories", "inputs"], "for every sequence of appends, including across growth boundaries and refused appends",
  "No test appends past the reserved block, vectorises a grown container or observes a refused append.",
  [BASE], [("_FeatureArray.append/export/vectorize/__getitem__", "robuststats/" + BASE)], ["len, shape, export(), vectorize(), str()"],
  [("_array", "list of buffers, one per component, possibly with reserved rows", "robuststats/" + BASE), ("_len", "number of valid rows", "robuststats/" + BASE)])
p("E07", "Overridden methods accept every call their base class makes to them",
  "Every method that a class of the package overrides from a scikit-learn, scipy or pymanopt base class can be called in every way the (installed) base class's own code calls it, positionally and by keyword, so that inherited public methods never fail with a signature error; every public overriding method accepts the arguments of the method it overrides.",
  ["programs", "configurations"], "for every override and every call site in the base classes of the installed versions",
  "Inherited methods (score, mahalanobis, logcdf, ...) are mostly never called by the tests.",
  [BASE, COV, STR, PRB, MAN, "utils/verbose.py", ONL], [("method overrides", "robuststats/" + BASE)], ["inherited public methods"])
p("D01", "Distributions route complex parameters and data through the real mapping",
  "For every public evaluation and sampling method (logpdf, pdf, logcdf, cdf, rvs, entropy) of the complex normal and t distributions, generic and frozen, as soon as the mean/location or the covariance/shape is complex, both parameters and the evaluation points reach the real-valued scipy implementation through the same real 2p-dimensional mapping, and samples come back complex of size p; with only real parameters scipy's behaviour is unchanged. Densities and entropies are returned as real numbers.",
  ["inputs", "configurations"], "for every public method and every combination of real/complex location, scale and data",
  "Tests exercise a few methods with both parameters complex.",
  [PRB, MAP], [("_check_parameters_complex_normal, _check_parameters_array_complex_normal and the overriding methods", "robuststats/" + PRB)], ["logpdf, pdf, cdf, logcdf, rvs, entropy"])
p("D02", "Distributions forward every option, including the random state",
  "Every option accepted by a method of the complex distributions (size, random_state, seed, allow_singular, maxpts, abseps, releps, df, lower limits) reaches the underlying scipy method under the same meaning, so a seeded draw is reproducible and no option is silently ignored or shifted to another parameter.",
  ["configurations"], "for every method and every option",
  "Tests call the methods with default options.",
  [PRB], [("super() calls of the distribution classes", "robuststats/" + PRB)], ["rvs(random_state=...) reproducibility"])
p("M01", "Real/complex mappings are mutually inverse on vectors, matrices and stacks",
  "Mapping a complex vector, data matrix, covariance or stack of covariances to its real representation and back returns the original exactly, and the same for the reverse direction on real representations in the image; inputs already on the target side are returned unchanged and unsupported shapes are refused with an error.",
  ["inputs"], "for every complex array of supported rank and every size",
  "Round trips are tested on one random array per function, some shapes not at all.",
  [MAP], [("arraytoreal/arraytocomplex, covariancetoreal/covariancetocomplex and stack versions", "robuststats/" + MAP)], ["return values"])
p("M02", "The covariance mapping is the one the data mapping induces",
  "For a zero-mean circular complex vector with covariance C, the second moment of its real representation is exactly the real representation of C; equivalently the real representation of C acts on real representations of vectors as one half of C does, and is symmetric positive semi-definite whenever C is HPD. Data mapping and covariance mapping use the same real/imaginary ordering.",
  ["inputs"], "for every Hermitian C and every complex vector",
  "The two mappings are tested separately; their agreement is a relation over all inputs.",
  [MAP], [("block layout and the factor one half", "robuststats/" + MAP)], ["return values"])
p("G01", "Manifold operations stay on the manifold and in the tangent space",
  "For HPD matrices, unit-determinant HPD matrices and positive vectors: exp and retr of a tangent vector give Hermitian (unit-determinant for the special manifold) points, proj, egrad2rgrad, log, transp, zerovec and randvec give Hermitian tangent vectors (with trace(x^-1 u)=0 on the special manifold), and proj is idempotent. randvec has unit norm in the manifold's own metric. A Hessian conversion returns a tangent vector, and rand returns points of the manifold.",
  ["inputs", "configurations"], "for every point, every tangent or ambient vector, and single as well as product (k>1) instances",
  "Tests use one random point and one size.",
  [MAN, LIN], [("HermitianPositiveDefinite, SpecialHermitianPositiveDefinite, StrictlyPositiveVectors", "robuststats/" + MAN)], ["return values of manifold methods"])
p("G02", "The metric and distance are affine invariant, norm and inner agree",
  "On HPD matrices inner, norm and dist do not change when the point(s) and the tangent vectors undergo a congruence x -> W x W^H by any invertible W; norm(x,u)^2 = inner(x,u,u), inner is symmetric in its two tangent arguments, dist is symmetric in its two points and zero on equal points; exp, log, retr, parallel transport and the gradient conversion commute with the congruence. Positive vectors satisfy the same with elementwise scaling. Parallel transport is an isometry, transporting there and back is the identity, dist(x,y) is the norm of log(x,y), is symmetric and is zero on equal points; exp, log, retr, transp and the gradient conversion commute with the congruence.",
  ["inputs"], "for all points, tangent vectors and invertible W",
  "Tests compare with one hand-computed value.",
  [MAN], [("inner/norm/dist/exp/log/retr/transp/egrad2rgrad", "robuststats/" + MAN)], ["return values"])
p("G03", "exp and log are inverse and first-order consistent with the metric",
  "On HPD matrices and positive vectors log(x, exp(x, u)) = u and exp(x, log(x, y)) = y for all points and tangent vectors, log(x,x)=0, exp(x,0)=x, and the Riemannian gradient g=egrad2rgrad(x,G) satisfies inner(x,g,u) = Re trace(G^H u) for every tangent u. retr agrees with exp to second order, dist(x, exp(x,u)) = norm(x,u) and the Hessian conversion satisfies inner(x, hess[u], v) = Re trace(E^H v) + Re trace(G^H (u x^-1 v + v x^-1 u)/2), E the Euclidean Hessian along u.",
  ["inputs"], "for all points and tangent vectors",
  "Round trips are tested on a few random points only.",
  [MAN], [("exp, log, egrad2rgrad, inner", "robuststats/" + MAN)], ["return values"])
p("G04", "Weighted products combine factors with the right power of each weight",
  "With weights w_k, inner is the w_k-weighted sum of the factor metrics, dist^2 the w_k-weighted sum of squared factor distances, the gradient and Hessian conversions divide component k by w_k, and randvec is a unit vector for the weighted inner product; each component uses its own weight, point and vector.",
  ["inputs", "configurations"], "for all factor manifolds, all positive weights, all points and vectors",
  "Tests do not use unequal weights except through one class, and check no homogeneity.",
  [MAN], [("WeightedProduct", "robuststats/" + MAN)], ["return values"])
p("G05", "The Kronecker elliptical metric and its gradient conversion agree",
  "On the Kronecker elliptical manifold the Riemannian gradient g returned for a Euclidean gradient G satisfies inner(theta, g, u) = Re trace(G_A^H u_A) + Re trace(G_B^H u_B) for every tangent vector u, with the metric alpha b tr(A^-1 u A^-1 v) + alpha a tr(B^-1 u B^-1 v) + (alpha-1) a^2 tr(B^-1 u) tr(B^-1 v) in its documented form. randvec is a unit vector of that metric, and dist is the norm of log in it.",
  ["inputs", "configurations"], "for all points, gradients, sizes a, b and 0<alpha<=1",
  "The one test checks inner at one point.",
  [MAN], [("KroneckerHermitianPositiveElliptical.inner and egrad2rgrad", "robuststats/" + MAN)], ["return values"])
p("G06", "Declared manifold dimensions equal the true dimensions",
  "The dimension a manifold reports is the dimension of its tangent spaces: k n for positive vectors, k n^2 for HPD matrices, k (n^2-1) for unit-determinant HPD matrices, and the sum over factors for products.",
  ["configurations"], "for every n and k",
  "No test reads the dimension.",
  [MAN], [("dimension passed to the base constructor", "robuststats/" + MAN)], ["dim"])
p("U01", "The autograd switch selects one backend for the whole computation",
  "A function called with autograd=True performs every array operation on traced values with functions that autograd traces and differentiates, and with autograd=False uses numpy only, in itself and in every helper it calls, so a gradient can be propagated end to end; both modes compute the same expression.",
  ["programs", "configurations"], "for every function with the switch and every call path below it",
  "Tests differentiate one composition; a helper that drops the flag fails only when differentiated through.",
  [BCK, LIN, CST, COV], [("get_be_autograd/get_be_la_autograd and the forwarding of the flag", "robuststats/" + BCK)], ["autograd.grad of the function"])
p("U02", "Randomness is reproducible and temporary seeding is undone on every exit",
  "All random draws of the data generators and manifolds come from numpy's global generator (or scipy's use of it), nothing else in the package draws random numbers, reseeds or replaces the global state, and temp_seed restores the caller's generator state when its block ends normally or by any exception. Two runs from the same seed therefore give identical data.",
  ["histories", "fault_sequences", "programs"], "for every call sequence, every exit of the with block",
  "No test leaves the block by an exception or checks the state afterwards.",
  [MC, GEN, MAN], [("temp_seed; np.random calls", "robuststats/" + MC)], ["np.random.get_state() before/after"])
p("U03", "Matrix functions are spectral functions of Hermitian matrices",
  "For every HPD matrix C: sqrtm(C) sqrtm(C) = C, invsqrtm(C) C invsqrtm(C) = I, powm(C,a) powm(C,b) = powm(C,a+b), expm(logm(C)) = C, and each result is Hermitian and commutes with unitary changes of basis; the hermitian and multiherm parts are Hermitian and idempotent.",
  ["inputs"], "for all HPD matrices (real and complex) and all exponents",
  "No test covers these functions directly.",
  [LIN], [("_matrix_operator and its callers", "robuststats/" + LIN)], ["return values"])
p("U04", "vec/unvec and vech/unvech are inverse",
  "unvec(vec(M)) = M for every square matrix, vec stacks columns, and vech lists each entry of the triangle once so that unvech rebuilds the Hermitian (symmetric) matrix it came from, complex entries included. A vector whose length is not a square is refused by unvec.",
  ["inputs"], "for all square (Hermitian) matrices of all sizes",
  "No test covers these functions.",
  [LIN], [("vec, unvec, vech, unvech", "robuststats/" + LIN)], ["return values"])
p("X01", "Data generators produce the documented shape, field and second moment",
  "The Gaussian generators return p x N arrays, complex exactly for the complex_ versions, whose columns have second moment E[x x^H] equal to the covariance given (identity for the standard ones) and, for complex ones, zero pseudo-covariance; compound samples multiply column n by the square root of texture n and nothing else; samples have mean zero and distinct columns are uncorrelated; tau U U^H samples have second moment tau_n U U^H + I; generated covariances are Hermitian positive definite, with unit determinant when asked; generated Stiefel points have orthonormal columns; gamma and lognormal textures are positive with the documented mean one, the lognormal ones with the log-variance given.",
  ["inputs", "configurations"], "for all sizes, covariances and textures",
  "A sample moment only approximates; tests do not cover the generators.",
  [GEN], [("sample_* and generate_* functions", "robuststats/" + GEN)], ["return values"])
p("O01", "Online estimation performs one retraction step per sample",
  "The stochastic estimator visits every sample once and in order, each time moving the current estimate by the manifold's retraction along step * rgrad(sample, estimate), with step lrate or lrate/(t+1) at the t-th update counted from the start of the fit, for plain and for product (list or tuple) gradients alike; covariance_ is always the covariance of the current estimate. Fitting without a starting point or updating before initialisation logs an error and changes nothing.",
  ["histories", "inputs"], "for every stream of samples, step rule and sequence of fit/update calls",
  "No test covers online estimation.",
  [ONL], [("StochasticGradientCovarianceEstimator.update/fit", "robuststats/" + ONL)], ["estimate_, covariance_"])
p("N01", "Fixed-point iterations converge to a unique solution",
  "For data in general position the Tyler, Student-t and Huber iterations converge to the unique solution of their fixed-point equation from every positive definite start.",
  ["inputs"], "for all data in general position and all starting matrices",
  "Tests run a few samples; convergence is an asymptotic statement.",
  [COV], FP, ["covariance_ as iter_max grows"])
p("N02", "Estimators are statistically consistent and accurate in floating point",
  "As the number of samples grows the estimates converge to the true scatter matrix, and the floating-point result stays within a small relative error of the exact-arithmetic estimate for well conditioned problems.",
  ["inputs"], "for all distributions of the model and all well conditioned inputs",
  "Tests compare a few estimates with the truth with loose tolerances.",
  [COV, STR], FP, ["covariance_"])
p("N03", "Natural-gradient estimators reach the optimum found by fixed point",
  "The natural-gradient Tyler estimator and the Kronecker Student estimator end at a minimiser of their cost, which for Tyler is the fixed-point estimate up to scale.",
  ["inputs"], "for all data in general position",
  "Tests run one problem; the statement depends on an iterative third-party solver's line searches.",
  [COV, STR], [("pymanopt solvers", "robuststats/" + COV)], ["covariance_"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")
for q in P:
    assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
print(len(P))
