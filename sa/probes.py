"""Estimators read (never run) by the analysis to observe how the batch transformers use the estimator they are given."""
import numpy as np
from scipy.linalg import svdvals
from robuststats.estimation.base import RealEmpiricalCovariance, ComplexEmpiricalCovariance


class Probe(ComplexEmpiricalCovariance):
    """the estimate depends on the data, the parameters, the fit options and the number of fits made with this object"""

    def __init__(self, gain=1.0):
        super().__init__(assume_centered=True)
        self.gain = gain
        self.count = 0

    def fit(self, X, y=None, init=None):
        self.count = self.count + 1
        cov = self.gain * self.count * (X.T @ X.conj()) / X.shape[0]
        if init is not None:
            cov = cov + init
        self.covariance_ = cov
        return self


class ProbePair(RealEmpiricalCovariance):
    """two components"""

    def __init__(self, gain=1.0):
        super().__init__(assume_centered=True)
        self.gain = gain
        self.count = 0

    def fit(self, X, y=None):
        self.count = self.count + 1
        self.covariance_ = self.gain * self.count * (X.T @ X) / X.shape[0]
        self.scale_ = self.count * np.sum(X * X, axis=1).reshape((-1, 1))
        return self

    def transform(self, X):
        return [self.covariance_, self.scale_]


class ProbeScalar(RealEmpiricalCovariance):
    """a number"""

    def __init__(self, gain=1.0):
        super().__init__(assume_centered=True)
        self.gain = gain
        self.count = 0

    def fit(self, X, y=None):
        self.count = self.count + 1
        self.value_ = self.gain * self.count * np.sum(X * X)
        return self

    def transform(self, X):
        return self.value_


def seeded(seed, body):
    """a block with a temporary seed; body may raise"""
    from robuststats.utils.montecarlo import temp_seed
    with temp_seed(seed):
        body()
    return True


def seeded_return(seed, body):
    """a block left by return"""
    from robuststats.utils.montecarlo import temp_seed
    with temp_seed(seed):
        return body()


def seeded_break(seed, body):
    """a block left by break and by continue"""
    from robuststats.utils.montecarlo import temp_seed
    for k in range(3):
        with temp_seed(seed):
            body()
            if k == 1:
                break
            continue
    return True


def seeded_nested(seed, other, body):
    """blocks within blocks"""
    from robuststats.utils.montecarlo import temp_seed
    with temp_seed(seed):
        with temp_seed(other):
            body()
        body()
    return True


# ---- written-out definitions, read by the analysis next to the code they are compared with
def ref_mahalanobis(X, loc, cov):
    """squared Mahalanobis distances of the rows of X"""
    D = X - loc
    return np.real(np.einsum('ki,ij,kj->k', D.conj(), np.linalg.inv(cov), D))


def ref_second_moment(X, loc):
    D = X - loc
    return np.einsum('ki,kj->ij', D, D.conj()) / X.shape[0]


def ref_score_real(X, loc, cov):
    """mean Gaussian log-density of the rows of X"""
    S = ref_second_moment(X, loc)
    return -0.5 * (np.linalg.slogdet(cov)[1] + np.trace(np.linalg.inv(cov) @ S) + X.shape[1] * np.log(2 * np.pi))


def ref_score_complex(X, loc, cov):
    """mean circular complex Gaussian log-density of the rows of X"""
    S = ref_second_moment(X, loc)
    return -(np.linalg.slogdet(cov)[1] + np.real(np.trace(np.linalg.inv(cov) @ S)) + X.shape[1] * np.log(np.pi))


def ref_error(cov, comp, norm, scaling, squared):
    E = comp - cov
    if norm == 'frobenius':
        v = np.real(np.sum(E * E.conj()))
    else:
        v = np.max(svdvals(E)) ** 2
    if scaling:
        v = v / E.shape[0]
    return v if squared else np.sqrt(v)
