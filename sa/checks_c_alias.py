"""E04: no public function modifies the arrays it is given."""
import ast
import os
import rat as R
import tf
import interp
import npm
import ext
import world
from interp import Inst, Opaque, Native
from world import *
from chk import Report, same, rel
from relate import to_T
from checks_c_struct import anchor, exc_name, val
from checks_c_state import estimators, est_dims, arrs, container, item, row
import checks_c_geom as geom
import checks_c_prob as prb
import checks_c_estim as est

CHECKS = {}
TWO, KK = geom.TWO, geom.KK
PKG = ["estimation.base", "estimation.covariance", "estimation.structured", "models.cost", "models.manifolds", "models.mappings",
       "models.probability", "online.estimation", "utils.backend", "utils.checking", "utils.generation_data", "utils.linalg",
       "utils.montecarlo", "utils.verbose"]


def check(pid):
    def d(f):
        CHECKS[pid] = f
        return f
    return d


class Scene:
    """name, function under study (module, function or class), build(it, env)"""

    def __init__(self, name, mod, fn, build):
        self.name, self.mod, self.fn, self.build = name, mod, fn, build


class Env:
    """what the caller of one path holds"""

    def __init__(self):
        self.lists, self.out = [], []

    def keep(self, l):
        """a list the caller passes"""
        self.lists.append((l, list(l)))
        return l

    def hand(self, v, what):
        """v was returned to (or read by) the caller"""
        for x in arrs(v):
            self.out.append((x, what, x.t.id))
            if x.parent is None:
                x.roots = x.roots | {("handed", what)}


def verdicts(events, given, env):
    out = []
    for e in events:
        if e.kind != "write":
            continue
        for r in e.roots:
            if isinstance(r, tuple) and r[0] == "given":
                out.append((e.where(), "writes (%s) to an array the caller passed: %s" % (e.what, label(given, r[1]))))
            elif isinstance(r, tuple) and r[0] == "handed":
                out.append((e.where(), "writes (%s) to an array handed out before: %s" % (e.what, r[1])))
    for l, was in env.lists:
        if len(l) != len(was) or any(x is not y for x, y in zip(l, was)):
            out.append((None, "a list the caller passed has other elements afterwards"))
    for x, what, t in env.out:
        if x.parent is not None and x.t.id != t:
            out.append((None, "the contents of an array handed out before have changed: %s" % what))
    return out


NAMES = {}


def label(given, k):
    if k >= len(given):
        return "argument %d" % k
    return NAMES.get(id(given[k])) or "argument %d, shape (%s)" % (k, ", ".join(str(s) for s in given[k].shape))


def run(rep, prog, s):
    w = anchor(prog, s.mod, s.fn) if "." not in s.fn else s.fn
    last = {}

    def build(it):
        it.given, it.env = [], Env()
        last["it"] = it
        return s.build(it, it.env)

    def go():
        try:
            qs = interp.explore(prog, build)
            found, n = [], 0
            for q in qs:
                n += 1
                found += verdicts(q.events, q.interp.given, q.interp.env)
        except tf.Unsupported as e:
            it = last["it"]
            found = verdicts(getattr(e, "events", None) or it.path.events, it.given, Env())
            if not found:
                raise
        for wh, what in found[:1]:
            rep.ob(s.name, False, wh or w, what)
        if not found:
            rep.ob(s.name, True, w, "%d paths" % n, "write effects and aliasing")
    rep.guard(s.name, go, w)


# -------------------------------------------------------------- scenes
def hpd_arg(it, name, d, cplx):
    return arr(it, leafT(name, (d, d), real=not cplx, herm=True, psd=True, inv=True), cplx)


def call(it, mod, name, *args, **kw):
    return it.call(it.get(mod, name), list(args), kw)


def quiet(it, f):
    """f(), whose refusal is not the subject"""
    try:
        return f()
    except interp.PyRaise:
        return None


def scenes_estimators():
    out = []
    for e in estimators():
        pd = R.mul(a, b) if e.kron else p
        takes = not e.cls.endswith("EmpiricalCovariance") and e.cls != "KroneckerEllipticalMM"

        def start(it, env, nm, e=e):
            if e.kron:
                x = [arr(it, leafT(nm + "A", (a, a), real=False, herm=True, psd=True, inv=True), True),
                     arr(it, leafT(nm + "B", (b, b), real=False, herm=True, psd=True, inv=True), True)]
                return env.keep(x)
            return hpd_arg(it, nm, p, e.cplx)

        def twice(it, env, init, e=e, takes=takes, start=start):
            o = e.make(it)
            e.fit(it, o, "X", **({"init": start(it, env, "S")} if init else {}))
            env.hand([v for k, v in o.attrs.items() if k.endswith("_")], "an attribute after the first fit")
            e.fit(it, o, "Y", **({"init": start(it, env, "T")} if init else {}))
        for init in (False, True) if takes else (False,):
            out.append(Scene("%s: two fits%s" % (e.id, ", starting points given" if init else ""), e.mod, e.cls,
                             lambda it, env, init=init, twice=twice: twice(it, env, init)))
        Y = lambda it, e=e: arr(it, X_T(e.cplx, e.kron, "Y"), e.cplx)
        C = lambda it, pd=pd, e=e: hpd_arg(it, "C", pd, e.cplx)
        for meth, args in (("mahalanobis", [Y]), ("error_norm", [C]), ("score", [Y]), ("transform", [Y]), ("_set_covariance", [C]),
                           ("fit_transform", [Y])):
            def after(it, env, e=e, meth=meth, args=args):
                o = e.make(it)
                e.fit(it, o, "X")
                env.hand([v for k, v in o.attrs.items() if k.endswith("_")], "an attribute after the fit")
                f = quiet(it, lambda: it.getattr(o, meth))
                if f is None:
                    return
                env.hand(quiet(it, lambda: it.call(f, [x(it) for x in args], {})), "the result of %s" % meth)
                if meth in ("transform", "_set_covariance"):
                    e.fit(it, o, "Z")
            out.append(Scene("%s: %s after a fit" % (e.id, meth), e.mod, e.cls, after))
    for cls, kw in (("HuberMEstimator", {"q": ("rat", QQ, "f")}), ("CenteredStudentMLE", {"df": ("sym", "df", "f")}), ("TylerShapeMatrix", {})):
        def fit_real(it, env, cls=cls, kw=kw):
            o = call(it, COV, "Complex" + cls, **{k: val(v) for k, v in kw.items()})
            it.call(it.getattr(o, "fit"), [arr(it, leafT("X", (n, R.mul(TWO, p)), real=True))], {})
        out.append(Scene("Complex%s: fit on data of real type" % cls, COV, "Complex" + cls, fit_real))

    def scale(it, env):
        o = call(it, BASE, "RealCovarianceScale")
        x = arr(it, X_T(False))
        it.call(it.getattr(o, "fit"), [x], {})
        quiet(it, lambda: it.call(it.getattr(o, "transform"), [x], {}))
    out.append(Scene("RealCovarianceScale: fit and transform", BASE, "RealCovarianceScale", scale))
    return out


def scenes_functions():
    out = []
    cs = cases(("None", "trace", "determinant", "element"), True, False) + [c for c in est.natural_cases() if c.kind == "fn"] + \
        [c for c in emp_cases() if c.kind == "fn"] + [c for c in mm_cases() if c.kind == "fn"]
    for c in cs:
        for init in (False, True) if c.est not in ("emp", "mm") else (False,):
            def f(it, env, c=c, init=init):
                args = {k: c.value(v) for k, v in c.params.items()}
                if init:
                    args["init"] = hpd_arg(it, "S", p, c.cplx)
                x = arr(it, X_T(c.cplx, c.kron), c.cplx)
                env.hand(it.call(it.get(c.mod, c.name), [x], args), "the result")
            out.append(Scene("%s%s" % (c.id, ", starting point given" if init else ""), c.mod, c.name, f))
    for nm, cplx in (("_generate_realTyler_cost_function", False), ("_generate_complexTyler_cost_function", True)):
        def g(it, env, nm=nm, cplx=cplx):
            x = arr(it, X_T(cplx), cplx)
            fs = call(it, COV, nm, x)
            q = hpd_arg(it, "Q", p, cplx)
            f = fs[0] if isinstance(fs, (tuple, list)) else fs
            it.call(f, [q], {})
            it.call(call(it, COV, "_generate_Tyler_egrad", x, f), [q], {})
        out.append(Scene("%s: cost and gradient" % nm, COV, nm, g))
    for loc in (False, True):
        def k(it, env, loc=loc):
            x = arr(it, X_T(True, True), True)
            l = arr(it, leafT("l", (a, b), (2,), real=False), True) if loc else None
            th = env.keep([hpd_arg(it, "A", a, True), hpd_arg(it, "B", b, True)])
            df = sym("df")
            it.call(call(it, STR, "_generate_cost_function_kronecker_student", x, df, l), th, {})
            it.call(call(it, STR, "_generate_egrad_function_kronecker_student", x, sym("a", "i"), sym("b", "i"), df, l), th, {})
        out.append(Scene("Kronecker Student cost and gradient%s" % (", location given" if loc else ""), STR,
                         "_generate_cost_function_kronecker_student", k))
    for nm in ("Tyler_cost_real", "Tyler_cost_complex"):
        for ag in (False, True):
            def t(it, env, nm=nm, ag=ag):
                c = nm.endswith("complex")
                call(it, COST, nm, arr(it, X_T(c), c), hpd_arg(it, "Q", p, c), autograd=ag)
            out.append(Scene("%s, autograd=%s" % (nm, ag), COST, nm, t))
    return out


def scenes_mappings():
    out = []
    for nm, dims in (("arraytoreal", [(p,), (n, p)]), ("arraytocomplex", [(R.mul(TWO, p),), (n, R.mul(TWO, p))]),
                     ("covariancetoreal", [(p, p)]), ("covariancetocomplex", [(R.mul(TWO, p),) * 2]),
                     ("covariancestoreal", [(N, p, p)]), ("covariancestocomplex", [(N,) + (R.mul(TWO, p),) * 2]),
                     ("iscovariance", [(p, p)]), ("check_Hermitian", [(p, p)]), ("check_Symmetric", [(p, p)])):
        for d in dims:
            for c in (False, True):
                for hm in (False, True) if d[-1] == d[-2 if len(d) > 1 else -1] and len(d) > 1 else (False,):
                    def f(it, env, nm=nm, d=d, c=c, hm=hm):
                        x = arr(it, leafT("M", d, real=not c, herm=hm), c)
                        env.hand(quiet(it, lambda: call(it, MAP, nm, x)), "the result")
                    out.append(Scene("%s: %s%s input of shape (%s)" % (nm, "complex" if c else "real", " Hermitian" if hm else "",
                                                                       ", ".join(map(str, d))), MAP, nm, f))
    return out


def scenes_linalg():
    out = []

    def add(nm, s, f):
        out.append(Scene("%s: %s" % (nm, s), LIN, nm, f))
    for c in (False, True):
        t = "complex" if c else "real"
        for nm in ("sqrtm", "logm", "expm", "invsqrtm", "powm"):
            for st, d in (("one matrix", (p, p)),):
                for ag in (False, True):
                    def f(it, env, nm=nm, d=d, c=c, ag=ag):
                        x = arr(it, leafT("C", d, real=not c, herm=True, psd=True, inv=True), c)
                        call(it, LIN, nm, x, *([sym("alpha")] if nm == "powm" else []), autograd=ag)
                    add(nm, "%s, %s, autograd=%s" % (t, st, ag), f)
        for nm, d in (("multihconj", (N, p, p)), ("multiherm", (N, p, p)), ("hermitian", (p, p))):
            for ag in (False, True):
                def f(it, env, nm=nm, d=d, c=c, ag=ag):
                    env.hand(call(it, LIN, nm, arr(it, leafT("C", d, real=not c), c), autograd=ag), "the result")
                add(nm, "%s, autograd=%s" % (t, ag), f)
        hp = R.mul(R.const(interp.Fraction(1, 2)), R.mul(p, R.add(p, R.const(1))))
        for nm, tt in (("vec", leafT("M", (p, p), real=not c)), ("vech", leafT("M", (p, p), real=not c, herm=True)),
                       ("unvec", leafT("v", (p, p), (2,), real=not c)), ("unvech", leafT("v", (hp,), real=True))):
            def f(it, env, nm=nm, tt=tt, c=c):
                call(it, LIN, nm, arr(it, tt, c and nm != "unvech"))
            add(nm, t, f)
    return out


def scenes_generators():
    out = []
    for c in (False, True):
        pre = "complex_" if c else ""

        def f1(it, env, c=c, pre=pre):
            call(it, GEN, "sample_%snormal_distribution" % pre, npm.num(N), hpd_arg(it, "C", p, c))

        def f2(it, env, c=c, pre=pre):
            call(it, GEN, "sample_%scompound_distribution" % pre, arr(it, leafT("tau", (N, R.const(1)), real=True, pos=True)), hpd_arg(it, "C", p, c))

        def f3(it, env, c=c, pre=pre):
            call(it, GEN, "sample_%stau_UUH_distribution" % pre, arr(it, leafT("tau", (N, R.const(1)), real=True, pos=True)),
                 arr(it, leafT("U", (p, R.sym("kk")), real=not c), c))
        for nm, f in (("normal", f1), ("compound", f2), ("tau_UUH", f3)):
            g = "sample_%s%s_distribution" % (pre, nm)
            out.append(Scene(g, GEN, g, f))
    return out


def scenes_manifolds():
    out = []
    sig = (("inner", "xuv"), ("norm", "xu"), ("proj", "xg"), ("egrad2rgrad", "xg"), ("ehess2rhess", "xghu"), ("exp", "xu"), ("retr", "xu"),
           ("log", "xy"), ("transp", "xyu"), ("dist", "xy"), ("randvec", "x"), ("zerovec", "x"), ("pair_mean", "xy"), ("to_tangent_space", "xg"))
    for mf in geom.singles():
        for meth, s in sig:
            def f(it, env, mf=mf, meth=meth, s=s):
                M = mf.make(it)
                x, y = mf.point("x"), mf.point("y")
                d = {"x": x, "y": y, "u": mf.tangent("u", x), "v": mf.tangent("v", x), "g": mf.ambient("G"), "h": mf.ambient("E")}
                g = quiet(it, lambda: it.getattr(M, meth))
                if g is not None:
                    env.hand(quiet(it, lambda: it.call(g, [arr(it, d[k], mf.cplx) for k in s], {})), "the result")
            out.append(Scene("%s: %s" % (mf.id, meth), MAN, mf.cls, f))
    H_, S_, V_ = "HermitianPositiveDefinite", "SpecialHermitianPositiveDefinite", "StrictlyPositiveVectors"
    prods = geom.weighted([("HPD and positive vectors", H_, V_), ("special and HPD", S_, H_)]) + geom.elliptical()
    for P in prods:
        for meth, s in sig:
            for seq in (list, tuple):
                def f(it, env, P=P, meth=meth, s=s, seq=seq):
                    M = P.make(it)
                    X, Y = P.points("x"), P.points("y")
                    d = {"x": X, "y": Y, "u": P.tangents("u", X), "v": P.tangents("v", X), "g": P.ambients("G"), "h": P.ambients("E")}
                    g = quiet(it, lambda: it.getattr(M, meth))
                    if g is not None:
                        args = [seq(P.wrap(it, d[k])) for k in s]
                        if seq is list:
                            for z in args:
                                env.keep(z)
                        quiet(it, lambda: it.call(g, args, {}))
                out.append(Scene("%s: %s of %ss" % (P.id, meth, seq.__name__), MAN, P.cls, f))

    def weights(it, env):
        ms = env.keep([geom.Man("1", H_, None, a, "1").make(it), geom.Man("2", V_, None, b, "2").make(it)])
        M = it.call(it.get(MAN, "WeightedProduct"), [ms, arr(it, leafT("w", (TWO,), real=True, pos=True))], {})
        X = [arr(it, leafT("xa", (a, a), real=False, herm=True, psd=True, inv=True), True), arr(it, leafT("xb", (b, R.const(1)), real=True, pos=True))]
        for meth in ("randvec", "typicaldist", "dist", "inner"):
            quiet(it, lambda: it.call(it.getattr(M, meth), {"randvec": [X], "typicaldist": [], "dist": [X, X], "inner": [X, X, X]}[meth], {}))
    out.append(Scene("WeightedProduct: the weights and the list of manifolds", MAN, "WeightedProduct", weights))
    return out


def scenes_distributions():
    out = []
    for dist in prb.DISTS if hasattr(prb, "DISTS") else []:
        name, cls, pl, ps, more = dist
        for lk, sk in (("complex", "complex"), ("real", "complex"), ("complex", "default"), ("real", "real"), ("list", "complex"),
                       ("complex", "complex diagonal"), ("none", "complex"), ("none", "real"), ("real", "diagonal")):
            for frozen in (False, True):
                for meth in ("logpdf", "pdf", "logcdf", "cdf", "rvs", "entropy"):
                    for xk in ("complex", "real"):
                        if xk == "real" and meth in ("rvs", "entropy"):
                            continue

                        def f(it, env, dist=dist, lk=lk, sk=sk, frozen=frozen, meth=meth, xk=xk):
                            name, cls, pl, ps, more = dist
                            loc = prb.location(lk)(it)
                            if isinstance(loc, list):
                                env.keep(loc)
                            sca = prb.scatter(sk)
                            given = {}
                            if loc is not None:
                                given[pl] = loc
                            if sca:
                                given[ps] = sca(it)
                            if "df" in more:
                                given["df"] = Arr(tf.scalar(prb.DF), "f", py=True)
                            d = it.get(PROB, name)
                            own = {}
                            if frozen:
                                d = quiet(it, lambda: it.call(d, [], given))
                                if d is None:
                                    return
                            else:
                                own.update(given)
                            if meth not in ("rvs", "entropy"):
                                own["x"] = (prb.cleaf if xk == "complex" else prb.rleaf)("x", n, p)(it)
                            g = quiet(it, lambda: it.getattr(d, meth))
                            if g is not None:
                                quiet(it, lambda: it.call(g, [], own))
                                if frozen:
                                    quiet(it, lambda: it.call(g, [], own))
                        out.append(Scene("%s%s: %s, location %s, scatter %s, %s points" % (name, " (frozen)" if frozen else "", meth, lk, sk, xk),
                                         PROB, cls, f))
    return out


def scenes_batches():
    out = []
    for cls in ("CovariancesEstimation", "FeaturesEstimation"):
        for ec in ("RealEmpiricalCovariance", "ComplexEmpiricalCovariance", "Probe", "ProbePair"):
            for jobs in (1, 2):
                for size in (2, None) if cls == "CovariancesEstimation" else (1, 2, 3):
                    def f(it, env, cls=cls, ec=ec, jobs=jobs, size=size):
                        e = call(it, "probes" if ec.startswith("Probe") else BASE, ec)
                        c = ec in ("ComplexEmpiricalCovariance", "Probe")
                        o = it.call(it.get(BASE, cls), [e], {"n_jobs": jobs})
                        X = arr(it, leafT("X", (R.const(size) if size else N, n, p), (1, 1, 1), real=not c), c)
                        Y = arr(it, leafT("Y", (R.const(size) if size else N, n, p), (1, 1, 1), real=not c), c)
                        kw = {"init": hpd_arg(it, "S", p, c)} if ec == "Probe" else {}
                        it.call(it.getattr(o, "fit"), [X], {})
                        r = it.call(it.getattr(o, "transform"), [X], dict(kw))
                        env.hand(r, "the result of transform")
                        it.call(it.getattr(o, "transform"), [Y], dict(kw))
                    out.append(Scene("%s of %s, n_jobs=%d, %s elements" % (cls, ec, jobs, size or "any number of"), BASE, cls, f))
    C2 = R.const(2)
    for how in ("array", "list", "tuple"):
        for k in (1, 2):
            if how == "array" and k == 2:
                continue
            for s1, s2 in ((0, 0), (2, 3), (3, 0), (2, 1500)):
                def f(it, env, how=how, k=k, s1=s1, s2=s2):
                    shapes = [(p, p), (n,)][:k]
                    o = container(it, shapes)

                    def data(nm, s):
                        xs = [arr(it, leafT("%s%d" % (nm, i), ((R.const(s),) if s else ()) + sh, (1,) * (len(sh) + bool(s)), real=False), True)
                              for i, sh in enumerate(shapes)]
                        return xs[0] if how == "array" else env.keep(xs) if how == "list" else tuple(xs)
                    app = it.getattr(o, "append")
                    it.call(app, [data("d", s1)], {})
                    for g in (lambda: it.call(it.getattr(o, "export"), [], {}), lambda: it.getitem(o, 0), lambda: it.getitem(o, slice(0, 1))):
                        env.hand(quiet(it, g), "a view of the container")
                    if k == 1:
                        env.hand(quiet(it, lambda: it.call(it.getattr(o, "vectorize"), [], {})), "the vectorised container")
                    for g in ("__str__", "__repr__", "__len__"):
                        quiet(it, lambda: it.call(it.getattr(o, g), [], {}))
                    for g in ("shape", "dtype", "nb_manifolds"):
                        quiet(it, lambda: it.getattr(o, g))
                    it.call(app, [data("e", s2)], {})
                    it.call(app, [data("f", s1)], {})
                out.append(Scene("feature container: %s of %d components, %d, %d and %d samples" % (how, k, s1 or 1, s2 or 1, s1 or 1),
                                 BASE, "_FeatureArray", f))
    return out


def scenes_online():
    out = []
    for kind in ("", "list", "tuple"):
        for rule in ("inverse iteration", "constant step"):
            for verb in (False, True):
                def f(it, env, kind=kind, rule=rule, verb=verb):
                    ds = [a, b] if kind else [p]

                    def new(nm, x):
                        ts = [Arr(tf.op_T("%s%d" % (nm, i), [tf.flat(v.t)], (d, d), herm=True, psd=True, inv=True), "c") for i, (d, v) in enumerate(zip(ds, x))]
                        for t in ts:
                            it.register(t)
                        return ts
                    parts = lambda v: list(v) if kind else [v]
                    wrap = lambda ts: (ts if kind == "list" else tuple(ts)) if kind else ts[0]
                    man = Opaque("a manifold", attrs={"truth": True, "retr": Native("retr", lambda it, g, k: wrap(new("RETR", parts(g[0]))))})
                    def slope(it, g, k):
                        ts = new("RGRAD", parts(g[1]))
                        env.hand(ts, "the gradient the caller's function returned")
                        return (env.keep(ts) if kind == "list" else tuple(ts)) if kind else ts[0]
                    rg = Native("rgrad", slope)
                    tc = Native("tocov", lambda it, g, k: Arr(tf.op_T("TOCOV", [tf.flat(parts(g[0])[0].t)], (p, p), herm=True, psd=True, inv=True), "c"))
                    cost = Native("cost", lambda it, g, k: Arr(tf.op_T("COST", [tf.flat(parts(g[1])[0].t)], (), real=True), "f", py=True))
                    kw = {"estimatetocov": tc} if kind else {}
                    if verb:
                        kw.update(cost=cost, verbosity=True)
                    e = call(it, ONL, "StochasticGradientCovarianceEstimator", man, rg, sym("lr"), **kw)

                    def start(nm):
                        xs = [hpd_arg(it, "%s%d" % (nm, i), d, True) for i, d in enumerate(ds)]
                        return (env.keep(xs) if kind == "list" else tuple(xs)) if kind else xs[0]
                    X = lambda nm, r: arr(it, leafT(nm, (R.const(r), p), real=False), True)
                    it.call(it.getattr(e, "fit"), [X("X", 2)], {"init": start("S"), "lr_update": rule})
                    env.hand([v for k_, v in e.attrs.items() if k_.endswith("_")], "the estimate after the first fit")
                    it.call(it.getattr(e, "update"), [X("Y", 1), rule], {})
                    it.call(it.getattr(e, "set_estimate"), [start("T")], {})
                    it.call(it.getattr(e, "update"), [X("Z", 1), rule], {})
                    it.call(it.getattr(e, "fit"), [X("W", 1)], {"init": start("V"), "lr_update": rule})
                out.append(Scene("online estimation, %s, %s%s" % (kind or "one matrix", rule, ", verbose" if verb else ""), ONL,
                                 "StochasticGradientCovarianceEstimator", f))
    return out


def scenes_misc():
    out = []
    for c in (False, True):
        def f(it, env, c=c):
            quiet(it, lambda: call(it, "robuststats.utils.verbose", "matprint", arr(it, leafT("M", (R.const(2), R.const(2)), real=not c), c)))
        out.append(Scene("matprint: %s" % ("complex" if c else "real"), "robuststats.utils.verbose", "matprint", f))
    return out


GROUPS = [scenes_estimators, scenes_functions, scenes_mappings, scenes_linalg, scenes_generators, scenes_manifolds, scenes_distributions,
          scenes_batches, scenes_online, scenes_misc]


def defined():
    """every function of the package, by file and qualified name"""
    out = set()
    for m in PKG:
        f = os.path.join(interp.REPO, "robuststats", *m.split(".")) + ".py"
        if not os.path.exists(f):
            continue
        with open(f, encoding="utf-8") as h:
            tree = ast.parse(h.read())

        def go(nd, q):
            for x in getattr(nd, "body", []):
                if isinstance(x, ast.ClassDef):
                    go(x, q + [x.name])
                elif isinstance(x, ast.FunctionDef):
                    out.add("robuststats/%s.py:%s" % (m.replace(".", "/"), ".".join(q + [x.name])))
        go(tree, [])
    return out


@check("E04")
def e04():
    rep = Report("E04", "Effect and alias analysis: every public function and method is interpreted on arrays that carry their owner; views, "
                 "slices, transposes, real parts and conversions that do not copy keep the owner, also through attributes, closures, lists "
                 "and loop states. No path (returning, raising or looping) may write to an array or list of the caller, nor to a result "
                 "handed out by an earlier call.")
    scenes = [s for g in GROUPS for s in g()]
    k = 48
    chunks = [scenes[i::k] for i in range(k)]

    def one(rep, ss):
        for s in ss:
            prog = Program()
            rep.progs.append(prog)
            run(rep, prog, s)
    rep.parallel(chunks, one)
    seen = set()
    for q in rep.progs:
        seen |= {"%s:%s" % (rel(f), x) for f, x in getattr(q, "visited", ())}
    rep.extra["functions_not_reached"] = sorted(x for x in defined() if x not in seen)
    rep.assumptions.append("numpy and scipy functions do not write to their operands unless asked to (out=, overwrite_*, in-place methods)")
    return rep
