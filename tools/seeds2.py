H = '''import numpy as np, warnings, logging
warnings.simplefilter("ignore"); logging.disable(logging.CRITICAL)
rng = np.random.default_rng(3)
def cdata(n, p):
    return rng.normal(size=(n, p)) + 1j*rng.normal(size=(n, p))
def hpd(p, *k):
    a = rng.normal(size=k+(p, p)) + 1j*rng.normal(size=k+(p, p))
    return a @ np.conj(np.swapaxes(a, -1, -2)) + np.eye(p)
'''
COV, STR, BASE, MAN, MAP, PROB, ONL, COST, GEN, LIN = ("estimation/covariance.py", "estimation/structured.py", "estimation/base.py",
    "models/manifolds.py", "models/mappings.py", "models/probability.py", "online/estimation.py", "models/cost.py",
    "utils/generation_data.py", "utils/linalg.py")
MC = "utils/montecarlo.py"
S = []
def add(id, prop, file, edits, demo, needs, breaks):
    S.append(dict(id=id, property=prop, file=file, edits=edits, demo=H + demo, needs=needs, breaks=breaks))

add("e01-precision-cutoff", "E01", BASE, [("            self.precision_ = linalg.pinvh(covariance, check_finite=False)",
    "            self.precision_ = linalg.pinvh(covariance, rtol=1e-6, check_finite=False)")], '''
from robuststats.estimation.covariance import ComplexCenteredStudentMLE
X = cdata(300, 3) * np.array([1, 1e-4, 1.])
e = ComplexCenteredStudentMLE(3).fit(X)
assert np.allclose(e.precision_ @ e.covariance_, np.eye(3), atol=1e-5)
''', "features whose scales differ by more than three orders of magnitude", "precision_ is no longer the inverse of covariance_")

add("m02-block", "M02", MAP, [("""np.block([[np.real(a), -np.imag(a)],
                                        [np.imag(a), np.real(a)]])""", """np.block([[np.real(a), np.imag(a).T],
                                        [np.imag(a), np.real(a).T]])""")], '''
from robuststats.models.mappings import covariancetoreal as K, arraytoreal as r
C, z = cdata(3, 3), cdata(1, 3)[0]
assert np.allclose(K(C) @ r(z), r(C @ z)/2)
''', "a square matrix that is not exactly Hermitian", "the covariance mapping is no longer induced by the data mapping; the round trip still works")

add("d01-discard", "D01", PROB, [("        return np.real(X), mean, cov", "        return np.abs(X), mean, cov")], '''
from robuststats.models.probability import complex_multivariate_normal as M
from scipy.stats import multivariate_normal as S
X = cdata(5, 3)
a = M.logpdf(X, np.zeros(3), np.eye(3)*2); b = S.logpdf(X.real, np.zeros(3), np.eye(3)*2)
assert np.allclose(a, b) or np.allclose(a, S.logpdf(np.abs(X), [9, 9, 9]))
X = X + 1
assert np.allclose(M.logpdf(X, np.ones(3), np.eye(3)), S.logpdf(X.real, np.ones(3), np.eye(3)))
''', "complex points evaluated under a model with real parameters", "the imaginary part is not discarded as announced")

add("e07-score-order", "E07", COV, [("    def score(self, X_test, y=None, model=", "    def score(self, X_test, model='Gaussian', y=None, _m=")], '''
import inspect
from robuststats.estimation.covariance import TylerShapeMatrix
X = rng.normal(size=(40, 3))
e = TylerShapeMatrix().fit(X)
e.score(X, None)
''', "score called with y by position, as scikit-learn's scorers do", "the inherited calling convention score(X, y)")

add("e04-mean-inplace", "E04", STR, [("        Y = X - np.tile(loc.reshape((1, n_features)), [n_samples, 1])", "        X -= np.tile(loc.reshape((1, n_features)), [n_samples, 1])\n        Y = X")], '''
from robuststats.estimation import structured as st
X = cdata(40, 4) + 1; Y = X.copy()
st._generate_egrad_function_kronecker_student(X, 2, 2, 5, X.mean(0))(hpd(2), hpd(2))
assert np.array_equal(X, Y)
''', "a gradient of the Kronecker Student cost with a mean", "the caller's data matrix is centred in place")

add("e04-gradient-list", "E04", ONL, [("            t_nabla = [t*x for x in nabla]", "            for j in range(len(nabla)):\n                nabla[j] = t*nabla[j]\n            t_nabla = nabla")], '''
from robuststats.online.estimation import StochasticGradientCovarianceEstimator as E
class M:
    def retr(self, x, u): return [a + b for a, b in zip(x, u)]
G = [np.eye(2)*(1+0j), np.eye(2)*(2+0j)]
e = E(M(), lambda s, x: G, .5, estimatetocov=lambda x: np.kron(x[0], x[1]))
e.fit(cdata(3, 4), init=[np.eye(2)*(1+0j)]*2)
assert np.array_equal(G[0], np.eye(2)) and np.array_equal(G[1], 2*np.eye(2))
''', "a gradient function that returns a list it keeps", "the list returned by the caller's gradient function is modified")

add("u03-floor", "U03", LIN, [("    eigvals = be.diag(operator(eigvals))", "    eigvals = be.diag(operator(be.maximum(eigvals, 1e-10)))")], '''
from robuststats.utils.linalg import sqrtm, invsqrtm, logm
A = 1e-14*hpd(3)
R = sqrtm(A)
assert np.allclose(R @ R / 1e-14, A / 1e-14, atol=1e-6)
''', "matrices with eigenvalues under 1e-10", "matrix functions are not those of the matrix")

add("u01-log", "U01", LIN, [("    return _matrix_operator(Ci, be.log, autograd)", "    return _matrix_operator(Ci, np.log, autograd)")], '''
import autograd, autograd.numpy as anp
from robuststats.utils.linalg import logm
A = np.diag([1., 2, 3])
g = autograd.grad(lambda x: anp.real(anp.trace(logm(x, autograd=True))))(A)
assert np.allclose(np.diag(g), 1/np.diag(A))
''', "differentiating through logm", "the autograd switch is not honoured by one function")

add("x01-k-scale", "X01", GEN, [("random.gamma(nu, 1/nu, size=(N, 1))", "random.gamma(nu, 1/max(nu, 1), size=(N, 1))")], '''
import inspect
from robuststats.utils import generation_data as g
from unittest import mock
seen = []
o = np.random.gamma
import robuststats.utils.generation_data as gd
def rec(shape, scale=1., size=None):
    seen.append((shape, scale)); return o(shape, scale, size)
src = [f for n, f in vars(g).items() if inspect.isfunction(f) and "gamma" in inspect.getsource(f)]
assert src
with mock.patch.object(gd.random, "gamma", rec):
    for f in src:
        try:
            k = {}
            for n, q in inspect.signature(f).parameters.items():
                if n == "nu": k[n] = .25
                elif n == "N": k[n] = 50
                elif n == "p": k[n] = 3
                elif n in ("cov", "sigma", "scatter"): k[n] = np.eye(3, dtype="complex128")
                elif n in ("mean", "mu"): k[n] = np.zeros((3, 1))
            f(**k)
        except Exception as e:
            print(f.__name__, e)
assert seen and all(abs(a*b - 1) < 1e-12 for a, b in seen), seen
''', "textures with shape parameter under one", "the texture no longer has mean one")

add("o01-order", "O01", ONL, [("            self.update(X[iteration, :]", "            self.update(X[-iteration, :]")], '''
from robuststats.online.estimation import StochasticGradientCovarianceEstimator as E
class M:
    def retr(self, x, u): return x + u
seen = []
def g(s, x):
    seen.append(np.array(s)); return np.zeros((3, 3), complex)
X = cdata(5, 3)
E(M(), g, .5).fit(X, init=np.eye(3, dtype=complex))
assert np.array_equal(np.concatenate(seen), X)
''', "a stream of more than two samples", "samples are taken in another order")

add("c07-unconverged", "C07", COV, [("    return sigma/S(sigma), delta, iteration\n\n\nclass HuberM", "    return (sigma/S(sigma) if delta <= tol else sigma), delta, iteration\n\n\nclass HuberM")], '''
from robuststats.estimation.covariance import complex_tyler_shape_matrix_fixedpoint as f, tyler_shape_matrix_fixedpoint as f2
X = rng.normal(size=(30, 3)); Z = cdata(30, 3)
for h, D in ((f2, X), (f, Z)):
    s = h(D, normalisation="trace", tol=1e-14, iter_max=2)[0]
    assert abs(np.trace(s) - 3) < 1e-9
''', "a budget that ends before convergence", "the returned shape matrix is not normalised")

add("c08-kron-delta", "C08", STR, [("        delta = max(delta_A, delta_B)", "        delta = max(delta_A, delta_B) if iteration else delta_A")], '''
from robuststats.estimation.structured import estimation_cov_kronecker_MM as f
X = np.kron(np.ones((50, 2)), np.ones((1, 2)))*0 + cdata(50, 4)
A, B, d, i = f(X, 2, 2, tol=1e-3, iter_max=1)
A2, B2, d2, i2 = f(X, 2, 2, tol=0, iter_max=1)
nb = np.linalg.norm(B - np.eye(2))/np.sqrt(2)
assert d >= nb*(1-1e-9), (d, nb)
''', "the first iteration, where the second factor moves more than the first", "the reported error ignores one factor")

add("c13-small-sample", "C13", BASE, [("        covariance = np.cov(X.T, bias=1)", "        covariance = np.cov(X.T, ddof=0 if X.shape[0] > X.shape[1] else 1)")], '''
from robuststats.estimation.base import complex_empirical_covariance as f
Z = cdata(3, 5); Y = Z - Z.mean(0)
assert np.allclose(f(Z), Y.T @ Y.conj() / 3)
''', "no more samples than features", "the second moment is divided by N-1")

add("c12-few-samples", "C12", COV, [("        tau = (1/p) * np.real(tau)\n", "        tau = (1/min(p, N)) * np.real(tau)\n")], '''
from robuststats.estimation.covariance import complex_tyler_shape_matrix_fixedpoint as f
Z = cdata(3, 5); S = hpd(5)
s = f(Z, init=S, normalisation="None", tol=1e-14, iter_max=1)[0]
q = np.real(np.einsum("ij,jk,ik->i", Z.conj(), np.linalg.inv(S), Z))
r = 5/3*np.einsum("ki,kj,k->ij", Z, Z.conj(), 1/q)
assert np.allclose(s, r) or np.allclose(s, r.T)
''', "fewer samples than features", "the iteration is Tyler's map with the wrong constant")

add("c11-log-guard", "C11", COST, [("n*be.log(be.real(be_la.det(Q)))", "n*be.log(be.real(be_la.det(Q)) + 1e-16)")], '''
from robuststats.models.cost import Tyler_cost_complex as f
Z = cdata(20, 3); Q = hpd(3)
assert abs(f(Z, Q) - f(Z, 1e-7*Q)) < 1e-6
''', "matrices of very small determinant", "the cost is no longer invariant to scale")

add("s02-loc-conj", "S02", STR, [("        Y = X - np.tile(loc.reshape((1, n_features)), [n_samples, 1])", "        Y = X - np.tile(loc.reshape((1, n_features)).conj(), [n_samples, 1])")], '''
from robuststats.estimation import structured as st
X = cdata(30, 4) + 1; loc = np.array([1+2j, 1j, -1, .5j])
c = st._generate_cost_function_kronecker_student(X, 5, loc)
g = st._generate_egrad_function_kronecker_student(X, 2, 2, 5, loc)
A, B = hpd(2), hpd(2); U = hpd(2); h = 1e-5
fc = lambda A: getattr(c, "_function", getattr(c, "function", c))(A, B) if not callable(c) else c(A, B)
num = (fc(A + h*U) - fc(A - h*U))/(2*h)
ge = g(A, B)[0]
num = num/30
assert abs(num - np.real(np.trace(ge.conj().T @ U))) < 1e-3*abs(num) + 1e-5, (num, np.trace(ge.conj().T @ U))
''', "a complex mean", "the gradient is taken at another mean than the cost")

add("c03-first-half", "C03", STR, [("    A = np.eye(a, dtype=Y.dtype)", "    A = np.eye(a, dtype=Y.dtype) * np.linalg.norm(X[0])")], '''
from robuststats.estimation.structured import estimation_cov_kronecker_MM as f
X = cdata(50, 4); X[0] *= 100
k = lambda X: (lambda r: np.kron(r[0], r[1]))(f(X, 2, 2, tol=1e-10, iter_max=1))
A = f(X, 2, 2, tol=1e-10, iter_max=1); B = f(X[::-1], 2, 2, tol=1e-10, iter_max=1)
assert np.allclose(A[0], B[0]) and np.allclose(A[1], B[1]) and abs(A[2]-B[2]) < 1e-9
''', "samples of different size in another order", "the factors and the reported error depend on the first sample")

add("c02-init-diag", "C02", STR, [("    A = np.eye(a, dtype=Y.dtype)", "    A = np.diag(1. + np.arange(a)).astype(Y.dtype)")], '''
from robuststats.estimation.structured import estimation_cov_kronecker_MM as f
X = cdata(50, 4)
q = np.linalg.qr(cdata(2, 2))[0]; w = np.linalg.qr(cdata(2, 2))[0]; W = np.kron(q, w)
k = lambda X: (lambda r: np.kron(r[0], r[1]))(f(X, 2, 2, tol=1e-10, iter_max=1))
a, b = k(X), k(X @ W.T)
a, b = a/np.trace(a), b/np.trace(b)
assert np.allclose(W @ a @ W.conj().T, b) or np.allclose(W.conj() @ a @ W.T, b)
''', "iterations ended by the budget on rotated data", "the estimate depends on the basis")

add("e03-coerce", "E03", COV, [("        self.q = q\n", "        self.q = float(q)\n")], '''
from sklearn.base import clone
from robuststats.estimation.covariance import HuberMEstimator, ComplexHuberMEstimator
class Q(float): pass
q = np.float64(.9)
for C in (HuberMEstimator, ComplexHuberMEstimator):
    e = C(q)
    assert e.get_params()["q"] is q
    clone(e)
''', "a parameter that is not a Python float", "the constructor does not store its argument; clone refuses the estimator")

add("u02-half-restored", "U02", MC, [("    state = np.random.get_state()\n    np.random.seed(seed)", "    state = np.random.get_state()\n    if seed:\n        np.random.seed(seed)")], '''
from robuststats.utils.montecarlo import temp_seed
r = []
for k in range(2):
    np.random.seed(k + 5)
    with temp_seed(0):
        r.append(np.random.rand())
assert r[0] == r[1]
''', "the seed zero", "runs seeded with zero are not reproducible")

