"""C14: what a fitted estimator says about data is said by the fitted model."""
import rat as R
import tf
import interp
import npm
import ext
from interp import Inst, Opaque
from world import *
from chk import Report, same
from relate import to_T
from checks_c_struct import anchor, exc_name, val, returned
from checks_c_state import estimators, est_dims

CHECKS = {}


def check(pid):
    def d(f):
        CHECKS[pid] = f
        return f
    return d


MD = [{"n": 4, "p": 2, "m": 3, "a": 2, "b": 1}, {"n": 3, "p": 3, "m": 2, "a": 1, "b": 3}]
M_ = R.sym("m")


def pcall(it, name, *args):
    return it.call(it.get("probes", name), list(args), {})


def test_data(it, e, name="Y"):
    t = leafT(name, (M_, a, b), (1, 2), real=not e.cplx) if e.kron else leafT(name, (M_, p), real=not e.cplx)
    return arr(it, t, e.cplx)


def t_loglik(it, X, loc, cov, df, cplx):
    """sum of the t log-densities of the rows of X; complex data through the documented real representation"""
    D = it.binop("Sub", X, loc)
    if cplx:
        D = it.call(it.get(MAP, "arraytoreal"), [D], {})
        cov = it.call(it.get(MAP, "covariancetoreal"), [cov], {})
    v = ext.dist_value(it, "multivariate_t", "logpdf", {"x": D, "shape": cov, "df": df})
    return it.call(it.npm.NP["sum"], [v], {})


def own(o):
    return {k: (v.t.id if isinstance(v, Arr) else v) for k, v in o.attrs.items() if k != "logger"}


def changed(x, y):
    return sorted(k for k in set(x) | set(y) if (k not in x or k not in y or (x[k] is not y[k] and x[k] != y[k])))


@check("C14")
def c14():
    rep = Report("C14", "After a fit of every estimator on arbitrary data, score, mahalanobis, error_norm and get_precision on other arbitrary "
                 "data are compared with their definitions written over the fitted location_, covariance_ and current parameters; "
                 "what is not implemented or not fitted yet is refused or logged.")

    def one(rep, e):
        prog = Program()
        rep.progs.append(prog)
        w = anchor(prog, e.mod, e.cls)

        def study(nm, meth, args, ref, kw=None, refused=None):
            """ref(it, o, given) -> expected value; refused: what a refusal must look like"""
            nm = "%s: %s" % (e.id, nm)

            def build(it):
                o = e.make(it)
                e.fit(it, o, "X")
                g = [x(it) for x in args]
                before, k0 = own(o), len(it.path.events)
                it.fitted = True
                r = it.call(it.getattr(o, meth), g, dict(kw or {}))
                ev = it.path.events[k0:]
                return {"r": r, "want": ref(it, o, g) if ref else None, "ch": changed(before, own(o)), "ev": ev}

            def go():
                qs = interp.explore(prog, build)
                for q in qs:
                    if q.outcome == "raise" and getattr(q.interp, "fitted", False):
                        ok = refused is not None and exc_name(q) in refused
                        if refused is not None or ref is not None:
                            rep.ob(nm + (": refused" if refused else ": returns"), ok, w, "raises %s" % exc_name(q))
                rs = [q for q in qs if q.outcome == "return"]
                if not rs and not refused:
                    rep.ob(nm + ": returns", False, w, "no path returns")
                for q in rs:
                    z = q.result
                    rep.ob(nm + ": the fitted estimator is left as it was", not z["ch"], w, "changed: %s" % z["ch"])
                    if refused is not None:
                        said = any(v.kind == "log" and v.level in ("error", "critical") for v in z["ev"])
                        rep.ob(nm + ": refused", said, w, "returns %r without a word" % (z["r"],))
                        continue
                    x, y = to_T(z["r"]), to_T(z["want"])
                    if x is None or y is None:
                        rep.ob(nm, False, w, "returns %r" % (z["r"],))
                        continue
                    ok, how, det = same(tf.flat(x), tf.flat(y), dims=MD)
                    rep.ob(nm, ok, w, det, how)
            rep.guard(nm, go, w)
        at = lambda o, k: o.attrs[k]
        Y = lambda it: test_data(it, e)
        pd = R.mul(a, b) if e.kron else p
        C = lambda it: arr(it, leafT("C", (pd, pd), real=not e.cplx, herm=True, psd=True, inv=True), e.cplx)
        study("mahalanobis is the squared Mahalanobis distance to the fitted location", "mahalanobis", [Y],
              lambda it, o, g: pcall(it, "ref_mahalanobis", g[0], at(o, "location_"), at(o, "covariance_")))
        study("get_precision is the inverse of covariance_", "get_precision", [],
              lambda it, o, g: it.call(it.npm.LA["inv"], [at(o, "covariance_")], {}))
        for norm in ("frobenius", "spectral"):
            for sc in (True, False):
                for sq in (True, False):
                    study("error_norm, %s%s%s" % (norm, ", scaled" if sc else "", ", squared" if sq else ""), "error_norm", [C],
                          lambda it, o, g, norm=norm, sc=sc, sq=sq: pcall(it, "ref_error", at(o, "covariance_"), g[0], norm, sc, sq),
                          {"norm": norm, "scaling": sc, "squared": sq})
        study("error_norm, default options", "error_norm", [C],
              lambda it, o, g: pcall(it, "ref_error", at(o, "covariance_"), g[0], "frobenius", True, True))
        study("error_norm, unknown norm", "error_norm", [C], None, {"norm": "nuclear"}, ("NotImplementedError", "ValueError"))
        gauss = "ref_score_complex" if e.cplx else "ref_score_real"
        if "Tyler" in e.cls or e.cls.endswith("EmpiricalCovariance"):
            study("score is the mean Gaussian log-likelihood", "score", [Y],
                  lambda it, o, g: pcall(it, gauss, g[0], at(o, "location_"), at(o, "covariance_")))
            if "Tyler" in e.cls:
                study("score under an unknown model", "score", [Y], None, {"model": "Laplace"}, ("NotImplementedError", "ValueError"))
        elif "Student" in e.cls:
            study("score is the Student-t log-likelihood", "score", [Y],
                  lambda it, o, g: t_loglik(it, g[0], at(o, "location_"), at(o, "covariance_"), at(o, "df"), e.cplx))
        else:
            study("score", "score", [Y], None, None, ("NotImplementedError",))
    rep.parallel(estimators(), one)

    def unfitted(rep, e):
        prog = Program()
        rep.progs.append(prog)
        w = anchor(prog, e.mod, e.cls)
        for meth in ("score", "mahalanobis"):
            nm = "%s: %s before a fit" % (e.id, meth)

            def build(it):
                o = e.make(it)
                k0 = len(it.path.events)
                r = it.call(it.getattr(o, meth), [test_data(it, e)], {})
                return r, it.path.events[k0:]

            def go():
                for q in interp.explore(prog, build):
                    if q.outcome == "raise":
                        rep.ob(nm, True, w, "raises %s" % exc_name(q))
                    elif q.outcome == "return":
                        r, ev = q.result
                        said = any(v.kind == "log" and v.level in ("error", "critical") for v in ev)
                        rep.ob(nm, said and not isinstance(r, Arr), w, "returns %r" % (r,))
            rep.guard(nm, go, w)
    seen = {}
    for e in estimators():
        seen.setdefault(e.cls, e)
    rep.parallel(seen.values(), unfitted)
    rep.assumptions.append("scipy.stats.multivariate_t computes the documented density; sklearn's EmpiricalCovariance source is read")
    return rep
