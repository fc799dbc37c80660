H = '''import numpy as np, warnings, logging
warnings.simplefilter("ignore"); logging.disable(logging.CRITICAL)
rng = np.random.default_rng(3)
def cdata(n, p):
    return rng.normal(size=(n, p)) + 1j*rng.normal(size=(n, p))
def hpd(p, *k):
    a = rng.normal(size=k+(p, p)) + 1j*rng.normal(size=k+(p, p))
    return a @ np.conj(np.swapaxes(a, -1, -2)) + np.eye(p)
'''
COV, STR, BASE, MAN, MAP, PROB, ONL, COST, GEN, LIN = ("estimation/covariance.py", "estimation/structured.py", "estimation/base.py",
    "models/manifolds.py", "models/mappings.py", "models/probability.py", "online/estimation.py", "models/cost.py",
    "utils/generation_data.py", "utils/linalg.py")
S = []
def add(id, prop, file, edits, demo, needs, breaks):
    S.append(dict(id=id, property=prop, file=file, edits=edits, demo=H + demo, needs=needs, breaks=breaks))

add("c04-texture-floor", "C04", COV, [("        tau = (1/p) * tau\n        temp = X.T / np.sqrt(tau)",
     "        tau = np.maximum((1/p) * tau, 1e-6)\n        temp = X.T / np.sqrt(tau)")], '''
from robuststats.estimation.covariance import tyler_shape_matrix_fixedpoint as f
X = rng.normal(size=(60, 3)) * np.array([1., 2., .5])
d = np.ones((60, 1)); d[:20] = 1e-5
a = f(X, init=np.eye(3), normalisation='trace', tol=1e-9, iter_max=200)[0]
b = f(X*d, init=np.eye(3), normalisation='trace', tol=1e-9, iter_max=200)[0]
assert np.linalg.norm(a-b) < 1e-6, (a, b)
''', "samples whose quadratic form falls below the floor (tiny textures)", "Tyler's estimate depends on the norm of individual samples")

add("c01-absolute-tol", "C01", COV, [("""        tau = df + np.real(tau)
        temp = X.T / np.sqrt(tau)
        sigma_new = ((df+p)/N) * temp@temp.T

        # condition for stopping
        delta = la.norm(sigma_new - sigma) / la.norm(sigma)""", """        tau = df + np.real(tau)
        temp = X.T / np.sqrt(tau)
        sigma_new = ((df+p)/N) * temp@temp.T

        # condition for stopping
        delta = la.norm(sigma_new - sigma) / max(1e-3, la.norm(sigma))""")], '''
from robuststats.estimation.covariance import CenteredStudentMLE
X = rng.standard_t(3, size=(200, 4)) @ np.diag([1, 2, 3, 4.])
a = CenteredStudentMLE(3, tol=1e-8, iter_max=500).fit(X)
b = CenteredStudentMLE(3, tol=1e-8, iter_max=500).fit(X*1e-4)
assert np.allclose(a.covariance_, b.covariance_*1e8, rtol=1e-7), (a.iteration_, b.iteration_)
assert a.iteration_ == b.iteration_
''', "data in small units (norm of the covariance below 1e-3)", "the stopping rule depends on the unit of the data, so the estimate is not scale equivariant")

add("c08-budget", "C08", COV, [("    while (delta > tol) and (iteration < iter_max):\n        # compute expression of Tyler estimator\n        temp = invsqrtm(sigma)@X.T\n        tau = np.einsum('ij,ji->i', temp.T, temp)\n        tau = (1/p) * tau",
     "    while (delta > tol) and (iteration < max(iter_max, 2)):\n        # compute expression of Tyler estimator\n        temp = invsqrtm(sigma)@X.T\n        tau = np.einsum('ij,ji->i', temp.T, temp)\n        tau = (1/p) * tau")], '''
from robuststats.estimation.covariance import TylerShapeMatrix
X = rng.normal(size=(60, 3))
e = TylerShapeMatrix(tol=1e-12, iter_max=1).fit(X)
assert e.iteration_ <= 1, e.iteration_
''', "an iteration budget of one", "fit runs more iterations than the budget and does not warn")

add("c10-beta-complex", "C10", COV, [("    beta = chi2.cdf(2*lbda, 2*p+2) + lbda*(1-q)/p", "    beta = chi2.cdf(2*lbda, 2*p+2) + lbda*(1-q)/(2*p)")], '''
from robuststats.estimation.covariance import complex_huber_m_estimator_fixed_point as f
from scipy.stats import chi2
X = cdata(400, 3); q = .7; p = 3
S, _, _ = f(X, q, tol=1e-12, iter_max=400)
l = chi2.ppf(q, 2*p)/2; b = chi2.cdf(2*l, 2*p+2) + l*(1-q)/p
t = np.real(np.einsum('ij,jk,ik->i', X.conj(), np.linalg.inv(S), X)) if False else np.real(np.sum(X.conj()*np.linalg.solve(S, X.T).T, axis=1))
w = np.minimum(1, l/t)/b
M = (X.T*w) @ X.conj()/400
assert np.allclose(M, S, rtol=1e-6), np.abs(M-S).max()
''', "any q<1 and complex data; the estimate is only off by a factor", "the complex Huber estimate is not the consistent one of the documented equation")

add("c02-solve-diag", "C02", COV, [("    temp = np.einsum('ij,ji->i', temp.T, temp)\n", "    temp = np.einsum('ij,ji->i', temp.T, temp)\n")], "", "", "")
S.pop()

add("s01-transpose", "S01", STR, [("M_i[:, :, i].T @ i_B.T @ M_i[:, :, i].conj()", "M_i[:, :, i].T @ i_B @ M_i[:, :, i].conj()")], '''
from robuststats.estimation.structured import estimation_cov_kronecker_MM as f
import scipy.linalg as sl
A0, B0 = hpd(3), hpd(2)
B0[0, 1] += 2j; B0[1, 0] -= 2j; B0 += 3*np.eye(2)
X = (np.linalg.cholesky(np.kron(A0, B0)) @ cdata(3000, 6).T).T
A, B, d, it = f(X, 3, 2, tol=1e-9, iter_max=300)
K = np.kron(A, B); K0 = np.kron(A0, B0)
assert np.linalg.norm(K/np.trace(K)-K0/np.trace(K0)) < .05*np.linalg.norm(K0/np.trace(K0)), np.linalg.norm(K/np.trace(K)-K0/np.trace(K0))
''', "a factor B with complex off-diagonal entries", "the MM update of A uses the conjugate of the inverse of B, so the fixed point is wrong")

add("s02-grad-transpose", "S02", STR, [("            M_B = M_i@i_A.T@M_i.T.conj()", "            M_B = M_i@i_A@M_i.T.conj()")], '''
from robuststats.estimation.structured import _generate_egrad_function_kronecker_student as g, _generate_cost_function_kronecker_student as c
X = cdata(5, 6); A, B = hpd(3), hpd(2)
eg = g(X, 3, 2, 3.); co = c(X, 3.)
ga, gb = eg(A, B)
E = hpd(2); h = 1e-5
num = (co(A, B+h*E) - co(A, B-h*E))/(2*h)/5
ana = np.real(np.trace(gb.conj().T @ E))
assert abs(num-ana) < 1e-4*max(1, abs(num)), (num, ana)
''', "a factor A with complex off-diagonal entries", "the gradient of B is not the derivative of the cost")

add("e02-warm-start", "E02", COV, [("""        X = self._validate_data(X)
        covariance, err, iteration = self.set_method()(
            X, init, **kwargs)""", """        X = self._validate_data(X)
        if init is None and getattr(self, 'covariance_', None) is not None\\
                and len(self.covariance_) == X.shape[1]:
            init = self.covariance_
        covariance, err, iteration = self.set_method()(
            X, init, **kwargs)""")], '''
from robuststats.estimation.covariance import TylerShapeMatrix
X, Y = rng.normal(size=(50, 3)), rng.normal(size=(50, 3))*[1, 5, 9]
a = TylerShapeMatrix(tol=1e-3).fit(Y)
b = TylerShapeMatrix(tol=1e-3).fit(X).fit(Y)
assert np.array_equal(a.covariance_, b.covariance_) and a.iteration_ == b.iteration_
''', "fitting the same object twice with the same number of features", "the second fit starts from the result of the first")

add("e05-parallel-shared", "E05", BASE, [("""    est = deepcopy(estimator)
    est.fit(x, **kwargs)
    return est.covariance_""", """    est = estimator
    est.fit(x, **kwargs)
    return est.covariance_""")], '''
from robuststats.estimation.base import CovariancesEstimation
from robuststats.estimation.covariance import CenteredStudentMLE
X = rng.normal(size=(4, 50, 3))
e = CenteredStudentMLE(3)
c = CovariancesEstimation(e, n_jobs=1).transform(X)
assert not hasattr(e, 'covariance_')
''', "looking at the estimator after transform", "transform fits the caller's estimator object instead of a copy")

add("e06-refused", "E06", BASE, [("        a = [a[i][:len(self)] for i in range(len(a))]\n        temp = [a[i][key]", "        temp = [a[i][key]")], '''
from robuststats.estimation.base import _FeatureArray
f = _FeatureArray((2, 2))
f.append(rng.normal(size=(3, 2, 2)))
f.append(rng.normal(size=(3, 2, 2)))
assert f[2:].shape == ((4, 2, 2),), f[2:].shape
g = f[-1].export()
assert np.array_equal(g, f.export()[-1])
''', "indexing after at least two appends (the buffer is then preallocated) with an open slice or a negative index", "observations see the preallocated rows that were never appended")

add("m01-iscomplex", "M01", MAP, [('    if not np.iscomplexobj(a):\n        logging.debug("Input array is not complex, returning input")\n        return a\n    elif a.ndim == 3:', '    if not np.any(np.iscomplex(a)):\n        logging.debug("Input array is not complex, returning input")\n        return a\n    elif a.ndim == 3:')], '''
from robuststats.models.mappings import covariancestoreal, covariancestocomplex
x = np.array([np.eye(3), 2*np.eye(3)]).astype(complex)
r = covariancestoreal(x)
assert r.shape == (2, 6, 6), r.shape
assert np.array_equal(covariancestocomplex(r), x)
''', "a stack of complex matrices whose imaginary parts are all exactly zero", "the stack is returned unmapped")

add("d01-cdf-limit", "D01", PROB, [("""            lower_limit, _, _ = _check_parameters_array_complex_normal(
                lower_limit, loc, shape)
        x, loc, shape = _check_parameters_array_complex_normal(
            x, loc, shape)
        return np.real(super(complex_multivariate_t_gen,
                             self).cdf(""", """            lower_limit, _, _ = _check_parameters_array_complex_normal(
                lower_limit, loc, np.real(shape))
        x, loc, shape = _check_parameters_array_complex_normal(
            x, loc, shape)
        return np.real(super(complex_multivariate_t_gen,
                             self).cdf(""")], "", "", "")
S.pop()

add("d02-option-swap", "D02", PROB, [("            loc, shape, df,\n            allow_singular=allow_singular,\n            seed=seed)", "            loc, shape, df,\n            seed=seed)")], '''
from robuststats.models.probability import complex_multivariate_t as t
x = rng.normal(size=3)
S = np.outer([1, 2, 3.], [1, 2, 3.])
t(np.zeros(3), S, 3, allow_singular=True).logpdf(x)
''', "a singular scatter matrix with allow_singular=True on the frozen t distribution", "the option is dropped, so the frozen distribution refuses the matrix")

add("g03-hess", "G03", MAN, [("        egrad = multiherm(egrad)\n        hess", "        hess")], '''
from robuststats.models.manifolds import HermitianPositiveDefinite as M
m = M(3); x, u, v = hpd(3), hpd(3), hpd(3)
G, E = cdata(3, 3), cdata(3, 3)
l = m.inner(x, m.ehess2rhess(x, G, E, u), v)
xi = np.linalg.inv(x)
r = np.real(np.trace(E.conj().T@v) + np.trace(G.conj().T@(u@xi@v+v@xi@u))/2)
assert abs(l-r) < 1e-8*abs(r), (l, r)
''', "a Euclidean gradient that is not Hermitian", "the Hessian conversion disagrees with the metric")

add("g02-special-transp", "G02", MAN, [("        t = np.trace(la.solve(x, u), axis1=-2, axis2=-1)\n        if k == 1:", "        t = np.trace(la.solve(x, u), axis1=-2, axis2=-1)\n        if np.ndim(x) == 2 and np.all(np.abs(t) < 1e-2):\n            return u\n        if k == 1:")], '''
from robuststats.models.manifolds import SpecialHermitianPositiveDefinite as M
m = M(3); x = hpd(3); x = x/np.real(np.linalg.det(x))**(1/3)
u = 1e-5*hpd(3)
w = m.proj(x, u)
assert abs(np.trace(np.linalg.solve(x, w))) < 1e-9, np.trace(np.linalg.solve(x, w))
''', "an ambient vector whose trace part is below 1e-2", "the projection leaves small vectors off the tangent space")
S[-1]["property"] = "G01"; S[-1]["id"] = "g01-small-trace"

add("g02-dist-chol", "G02", MAN, [("        logm = multilog(multiprod(multiprod(c_inv, y), multihconj(c_inv)),", "        logm = multilog(multiprod(multiprod(multihconj(c_inv), y), c_inv),")], '''
from robuststats.models.manifolds import HermitianPositiveDefinite as M
m = M(3); x, y = hpd(3), hpd(3); W = cdata(3, 3)
c = lambda t: W@t@W.conj().T
assert abs(m.dist(c(x), c(y))-m.dist(x, y)) < 1e-7
assert abs(m.dist(x, y)-m.norm(x, m.log(x, y))) < 1e-7
''', "matrices that do not commute", "the distance is not the affine invariant one")

add("g04-weight-dist", "G04", MAN, [("weights[k]*np.squeeze(man.dist(X[k], Y[k])**2)", "np.squeeze((weights[k]*man.dist(X[k], Y[k]))**2)")], '''
from robuststats.models.manifolds import HermitianPositiveDefinite as M, WeightedProduct as P
m = P([M(2), M(3)], (2., .3)); x, y = [hpd(2), hpd(3)], [hpd(2), hpd(3)]
l = m.dist(x, y)**2; r = 2*M(2).dist(x[0], y[0])**2+.3*M(3).dist(x[1], y[1])**2
assert abs(l-r) < 1e-8*r, (l, r)
''', "weights different from one", "the distance weighs the factors with the squared weights")

add("g05-axes", "G05", MAN, [("                                 axes=theta[1].ndim)) +\\", "                                 axes=2)) +\\")], '''
from robuststats.models.manifolds import KroneckerHermitianPositiveElliptical as M
m = M(2, 3, .7, k=2); A, B = hpd(2, 2), hpd(3, 2); A = A/(np.real(np.linalg.det(A))**.5).reshape(-1, 1, 1)
u = hpd(3, 2); A0 = np.zeros_like(A)
l = np.sum(m.inner([A, B], [A0, u], [A0, u]))
t = np.linalg.solve(B, u); tr = np.trace(t, axis1=1, axis2=2)
r = np.real(.7*2*np.sum(np.trace(t@t, axis1=1, axis2=2)) + (.7-1)*4*np.sum(tr*tr))
assert abs(l-r) < 1e-8*abs(r), (l, r)
''', "the product form with k>1", "the inner product pairs every matrix of the stack with every other")

add("e03-copied-param", "E03", STR, [("        self.a = a\n        self.b = b\n        self.df = df\n", "        self.a = int(a)\n        self.b = int(b)\n        self.df = df or 1\n")], '''
from robuststats.estimation.structured import KroneckerStudent
from sklearn.base import clone
e = KroneckerStudent(np.int64(3), 2, 0)
assert e.df == 0
clone(KroneckerStudent(3, 2, 1)); assert KroneckerStudent(3, 2, 0).get_params()['df'] == 0
''', "a parameter equal to zero", "the constructor replaces the value it was given, so get_params and clone disagree with the caller")

add("c06-nonherm", "C06", COV, [("        return np.real(la.det(covariance))**(1/covariance.shape[0])", "        return la.det(covariance)**(1/covariance.shape[0])")], '''
from robuststats.estimation.covariance import ComplexTylerShapeMatrix
for k in range(20):
    X = cdata(60, 3)
    c = ComplexTylerShapeMatrix(normalisation='determinant').fit(X).covariance_
    assert np.all(np.imag(np.diag(c)) == 0) or np.abs(np.imag(np.diag(c))).max() < 1e-17, np.diag(c)
''', "", "")
S.pop()

