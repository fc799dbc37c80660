"""The estimators of the package as cases for the interpreter."""
import os
import rat as R
import tf
import interp
from interp import Arr, explore, Program, Inst, UNDEF  # noqa
import ext  # noqa

tf.POS_SYMBOLS.update({"n", "p", "df", "c", "r", "a", "b", "tol", "itmax", "m", "N", "lr", "alpha"})
tf.INT_SYMBOLS.update({"n", "p", "a", "b", "itmax", "m", "N"})
tf.INT_MIN.update({"n": 2, "p": 2, "a": 2, "b": 2})
# thorough runs repeat an analysis at the edge sizes that the symbolic sizes (at least two) leave out
_EDGE = dict(x.split("=") for x in os.environ.get("SA_SIZES", "").split(",") if x)
n, p, a, b, m, N = [R.const(int(_EDGE[x])) if x in _EDGE else R.sym(x) for x in ("n", "p", "a", "b", "m", "N")]
c = R.sym("c")
I1, HALF = R.const(1), R.const(interp.Fraction(1, 2))

COV = "robuststats.estimation.covariance"
STR = "robuststats.estimation.structured"
BASE = "robuststats.estimation.base"
COST = "robuststats.models.cost"
MAP = "robuststats.models.mappings"
MAN = "robuststats.models.manifolds"
PROB = "robuststats.models.probability"
LIN = "robuststats.utils.linalg"
GEN = "robuststats.utils.generation_data"
MC = "robuststats.utils.montecarlo"
ONL = "robuststats.online.estimation"
BACK = "robuststats.utils.backend"


def arr(it, t, cplx=False, dt=None):
    """an array of the caller"""
    x = Arr(t, dt or ("c" if cplx else "f"))
    g = getattr(it, "given", None)
    if g is not None:
        x.roots = frozenset({("given", len(g))})
        g.append(x)
    it.register(x)
    return x


def leafT(name, dims, sizes=None, **kw):
    return tf.from_node(tf.leaf(name, tuple(dims), **kw), sizes)


def X_T(cplx, kron=False, name="X"):
    if kron:
        return leafT(name, (n, a, b), (1, 2), real=not cplx)
    return leafT(name, (n, p), real=not cplx)


def S_T(cplx, name="S"):
    return leafT(name, (p, p), real=not cplx, herm=True, psd=True, inv=True)


def sym(s, dt="f"):
    return Arr(tf.scalar(R.sym(s)), dt, py=True)


class Case:
    """one estimator, called as a function or through its class"""

    def __init__(self, id, mod, name, kind, cplx, kron=False, params=None, fitkw=None, est="", outs=None):
        self.id, self.mod, self.name, self.kind, self.cplx, self.kron = id, mod, name, kind, cplx, kron
        self.params, self.fitkw, self.est = params or {}, fitkw or {}, est
        self.outs = outs
        self.runs = {}

    def value(self, v):
        if isinstance(v, tuple) and v[0] == "sym":
            return sym(v[1], v[2])
        if isinstance(v, tuple) and v[0] == "rat":
            return Arr(tf.scalar(v[1]), v[2], py=True)
        return v

    def run(self, prog, init=False, extra=None):
        key = (id(prog), init, repr(extra))
        r = self.runs.get(key)
        if r is None:
            kw = dict(self.params)
            kw.update(extra or {})

            def build(it):
                X = arr(it, X_T(self.cplx, self.kron), self.cplx)
                it.X = X
                args = {k: self.value(v) for k, v in kw.items()}
                if self.kind == "fn":
                    f = it.get(self.mod, self.name)
                    it.where = "%s:%s" % (f.module.name.replace(".", "/") + ".py", self.name)
                    if init:
                        args["init"] = it.S = arr(it, S_T(self.cplx), self.cplx)
                    return self.read_fn(it.call(f, [X], args))
                cls = it.get(self.mod, self.name)
                e = it.call(cls, [], args)
                fk = {k: self.value(v) for k, v in self.fitkw.items()}
                if init:
                    fk["init"] = it.S = arr(it, S_T(self.cplx), self.cplx)
                it.event("fitstart", obj=e)
                it.fitted = e
                r = it.call(it.getattr(e, "fit"), [X], fk)
                return self.read_cls(e, r)
            r = self.runs[key] = Run(self, explore(prog, build), prog)
        return r

    def read_fn(self, r):
        names = self.outs
        if len(names) == 1:
            return {names[0]: r}
        if not isinstance(r, (tuple, list)) or len(r) != len(names):
            raise tf.Unsupported("%s returns %s" % (self.name, type(r).__name__))
        return dict(zip(names, r))

    def read_cls(self, e, r):
        d = {"return": r, "self": e}
        for nm, at in (("cov", "covariance_"), ("err", "err_"), ("it", "iteration_"), ("A", "A_"), ("B", "B_"),
                       ("loc", "location_"), ("prec", "precision_")):
            if at in e.attrs:
                d[nm] = e.attrs[at]
        return d

    def anchor(self, prog):
        try:
            src = prog.src(self.mod)
            import ast
            for nd in src.tree.body:
                if isinstance(nd, (ast.FunctionDef, ast.ClassDef)) and nd.name == self.name:
                    line = nd.lineno
                    if isinstance(nd, ast.ClassDef):
                        for f in nd.body:
                            if isinstance(f, ast.FunctionDef) and f.name == "fit":
                                line = f.lineno
                    return "%s:%s:%d" % (self.mod.replace(".", "/") + ".py", self.name, line)
        except tf.Unsupported:
            pass
        return "%s:%s" % (self.mod.replace(".", "/") + ".py", self.name)


class Run:
    def __init__(self, case, paths, prog):
        self.case, self.paths, self.prog = case, paths, prog
        self.where = case.anchor(prog)

    def returns(self):
        return [q for q in self.paths if q.outcome == "return"]

    def raises(self):
        return [q for q in self.paths if q.outcome == "raise"]


def T_of(v):
    if isinstance(v, Arr):
        return v.t
    if isinstance(v, (int, interp.Fraction)) and not isinstance(v, bool):
        return tf.scalar(R.const(v))
    raise tf.Unsupported("a number or array is expected, got %r" % (v,))


S = "sym"
ITER = {"tol": (S, "tol", "f"), "iter_max": (S, "itmax", "i")}
QQ = R.inv(R.add(R.const(1), R.sym("r")))          # any quantile in (0, 1) is 1/(1+r) with r > 0
Q = {"q": ("rat", QQ, "f")}
DF = {"df": (S, "df", "f")}
AB = {"a": (S, "a", "i"), "b": (S, "b", "i")}
COVO = ("cov", "err", "it")


def cases(norms=("None",), functions=True, classes=True):
    out = []
    for cplx in (False, True):
        pre, Pre = ("complex_", "Complex") if cplx else ("", "")
        tag = "complex" if cplx else "real"
        if functions:
            out.append(Case("huber-fn-" + tag, COV, pre + "huber_m_estimator_fixed_point", "fn", cplx,
                            params={**Q, **ITER}, est="huber", outs=COVO))
            out.append(Case("student-fn-" + tag, COV, pre + "student_t_mle_fixed_point", "fn", cplx,
                            params={**DF, **ITER}, est="student", outs=COVO))
            for nm in norms:
                out.append(Case("tyler-fn-%s-%s" % (tag, nm), COV, pre + "tyler_shape_matrix_fixedpoint", "fn", cplx,
                                params={"normalisation": nm, **ITER}, est="tyler" if nm == "None" else "tyler-" + nm,
                                outs=COVO))
        if classes:
            out.append(Case("huber-class-" + tag, COV, Pre + "HuberMEstimator", "cls", cplx,
                            params={**Q, **ITER}, est="huber"))
            out.append(Case("student-class-" + tag, COV, Pre + "CenteredStudentMLE", "cls", cplx,
                            params={**DF, **ITER}, est="student"))
            for nm in norms:
                out.append(Case("tyler-class-%s-%s" % (tag, nm), COV, Pre + "TylerShapeMatrix", "cls", cplx,
                                params={"normalisation": nm, **ITER}, est="tyler" if nm == "None" else "tyler-" + nm))
    return out


def emp_cases():
    out = []
    for cplx in (False, True):
        name = "ComplexEmpiricalCovariance" if cplx else "RealEmpiricalCovariance"
        for cent in (False, True):
            out.append(Case("empirical-class-%s-%s" % ("complex" if cplx else "real", "centred" if cent else "mean"),
                            BASE, name, "cls", cplx, params={"assume_centered": cent}, est="emp"))
    for cent in (False, True):
        out.append(Case("empirical-fn-complex-%s" % ("centred" if cent else "mean"), BASE,
                        "complex_empirical_covariance", "fn", True, params={"assume_centered": cent}, est="emp",
                        outs=("cov",)))
    return out


def mm_cases():
    return [Case("kronmm-fn", STR, "estimation_cov_kronecker_MM", "fn", True, kron=True, params={**AB, **ITER},
                 est="mm", outs=("A", "B", "err", "it")),
            Case("kronmm-class", STR, "KroneckerEllipticalMM", "cls", True, kron=True, params={**AB, **ITER}, est="mm")]
