"""E01-E07: state published by fit, independence of fits, parameter protocol, effects, batches, container, overriding."""
import rat as R
import tf
import interp
import npm
import ext
from interp import Inst, Func, Bound, Opaque, Native
from world import *
from chk import Report, same
from checks_c_estim import maha, KDIMS, kronT, tf_node
from checks_c_struct import anchor, val, exc_name, returned, defined, any_same_d
from relate import to_T

CHECKS = {}


def check(pid):
    def d(f):
        CHECKS[pid] = f
        return f
    return d


V = {"tol": ("sym", "tol", "f"), "iter_max": ("sym", "itmax", "i")}
V2 = {"tol": ("sym", "tol2", "f"), "iter_max": ("sym", "itmax2", "i")}
tf.POS_SYMBOLS.update({"n0", "p0", "tol2", "itmax2", "df2", "r2", "a2", "b2"})
tf.INT_SYMBOLS.update({"itmax2", "n0", "p0"})
QQ2 = R.inv(R.add(R.const(1), R.sym("r2")))


class Est:
    """an estimator class, two parameter settings, its data"""

    def __init__(self, id, mod, cls, cplx, p1, p2, kron=False, iterative=True, fitkw=None, needs_init=False, store=False):
        self.id, self.mod, self.cls, self.cplx, self.p1, self.p2, self.kron = id, mod, cls, cplx, p1, p2, kron
        self.iterative, self.fitkw, self.needs_init, self.store = iterative, fitkw or {}, needs_init, store

    def make(self, it, p=None):
        return it.call(it.get(self.mod, self.cls), [], {k: val(v) for k, v in (self.p1 if p is None else p).items()})

    def data(self, it, name="X", other=False):
        """other: a data matrix with another number of samples and, where it is free, of features"""
        t = X_T(self.cplx, self.kron, name)
        if other:
            t = leafT(name, (R.sym("n0"), a, b), (1, 2), real=not self.cplx) if self.kron \
                else leafT(name, (R.sym("n0"), R.sym("p0")), real=not self.cplx)
        return arr(it, t, self.cplx)

    def fit(self, it, e, name="X", other=False, **kw):
        k = {q: val(v) for q, v in self.fitkw.items()}
        k.update(kw)
        return it.call(it.getattr(e, "fit"), [self.data(it, name, other)], k)

    def where(self, prog):
        return anchor(prog, self.mod, self.cls)


def estimators():
    out = []
    for cplx in (False, True):
        P = "Complex" if cplx else ""
        q1, q2 = {"q": ("rat", QQ, "f"), **V}, {"q": ("rat", QQ2, "f"), **V2}
        out.append(Est(P + "HuberMEstimator", COV, P + "HuberMEstimator", cplx, q1, q2))
        out.append(Est(P + "CenteredStudentMLE", COV, P + "CenteredStudentMLE", cplx, {"df": ("sym", "df", "f"), **V},
                       {"df": ("sym", "df2", "f"), **V2}))
        t = P + "TylerShapeMatrix"
        out.append(Est(t, COV, t, cplx, {**V, "normalisation": "None"}, {**V2, "normalisation": "trace"}))
        out.append(Est(t + "[determinant]", COV, t, cplx, {**V, "normalisation": "determinant"}, {**V2, "normalisation": "element"}))
        out.append(Est(t + "[natural to fixed]", COV, t, cplx, {**V, "method": "natural gradient", "normalisation": "trace"},
                       {**V2, "method": "fixed-point", "normalisation": "None"}))
        out.append(Est(t + "[fixed to natural]", COV, t, cplx, {**V, "method": "fixed-point", "normalisation": "None"},
                       {**V2, "method": "natural gradient", "normalisation": "trace"}))
        e = P + "EmpiricalCovariance" if cplx else "RealEmpiricalCovariance"
        for c1, c2 in ((True, False), (False, True)):
            out.append(Est("%s[%s]" % (e, "centred" if c1 else "mean"), BASE, e, cplx, {"assume_centered": c1, "store_precision": c1},
                           {"assume_centered": c2, "store_precision": c2}, iterative=False, store=True))
    ab1 = {"a": ("sym", "a", "i"), "b": ("sym", "b", "i")}
    for st in (True, False):
        out.append(Est("KroneckerEllipticalMM[%s]" % st, STR, "KroneckerEllipticalMM", True, {**ab1, **V, "store_precision": st},
                       {**ab1, **V2, "store_precision": not st}, kron=True, iterative=False, store=True))
        out.append(Est("KroneckerStudent[%s]" % st, STR, "KroneckerStudent", True,
                       {**ab1, "df": ("sym", "df", "f"), "assume_centered": st, "store_precision": st},
                       {**ab1, "df": ("sym", "df2", "f"), "assume_centered": not st, "store_precision": not st},
                       kron=True, iterative=False, store=True))
    return out


class OnlineEst(Est):
    """the stochastic estimator over a manifold and a gradient of which nothing is known"""

    def __init__(self):
        super().__init__("StochasticGradientCovarianceEstimator", ONL, "StochasticGradientCovarianceEstimator", True,
                         {"lrate": ("sym", "lrate1", "f")}, {"lrate": ("sym", "lrate2", "f")}, iterative=False)

    def make(self, it, p=None):
        def retr(it, a_, k):
            return Arr(tf.op_T("RETR", [tf.flat(x.t) for x in a_], (p_, p_), herm=True, psd=True, inv=True), "c")

        def rgrad(it, a_, k):
            return Arr(tf.op_T("RGRAD", [tf.flat(x.t) for x in a_], (p_, p_), herm=True), "c")
        p_ = globals()["p"]
        man = Opaque("a manifold", attrs={"truth": True, "retr": Native("retr", retr)})
        kw = {k: val(v) for k, v in (self.p1 if p is None else p).items()}
        return it.call(it.get(self.mod, self.cls), [man, Native("rgrad", rgrad)], kw)

    def fit(self, it, e, name="X", other=False, **kw):
        start = arr(it, leafT("S" + name, (p, p), real=False, herm=True, psd=True, inv=True), True)
        t = leafT(name, (R.sym("n0") if other else n, p), real=False)
        return it.call(it.getattr(e, "fit"), [arr(it, t, True)], {"init": start, **kw})


def est_dims(e):
    return KDIMS if e.kron else None


# ------------------------------------------------------------------ E01
@check("E01")
def e01():
    rep = Report("E01", "Every path of fit of every estimator class is interpreted on an arbitrary data matrix; on each return the "
                 "published attributes are present and mutually consistent, and the inherited methods are interpreted on the "
                 "fitted object.")
    def one(rep, e):
        prog = Program()
        rep.progs.append(prog)
        where = e.where(prog)

        def build(it):
            o = e.make(it)
            it.stale = dict(o.attrs)
            it.o = o
            r = e.fit(it, o)
            st = dict(o.attrs)
            return {"r": r, "state": st, "o": o}

        def go():
            qs = explore(prog, build)
            if not returned(qs):
                rep.ob(e.id + ": a result", None, where, "no path returns")
            for q in returned(qs):
                st, o = q.result["state"], q.result["o"]
                rep.ob(e.id + ": fit returns the estimator", q.result["r"] is o, where, "%r" % (q.result["r"],))
                pd = R.mul(a, b) if e.kron else p
                cov = to_T(st.get("covariance_"))
                rep.ob(e.id + ": covariance_ is set", cov is not None and [str(x) for x in cov.shape] == [str(pd)] * 2, where,
                       "%s" % (cov.shape if cov is not None else None,))
                if cov is None:
                    continue
                prec = st.get("precision_", "missing")
                on = st.get("store_precision", True)
                if on is True:
                    if to_T(prec) is None:
                        rep.ob(e.id + ": precision_ is set", False, where, "%r" % (prec,))
                    else:
                        eye = tf.matmul_T(tf.flat(cov) if cov.n > 2 else cov, to_T(prec))
                        ok, how, det = same(to_T(prec), tf.mpow(cov, R.const(-1)), dims=est_dims(e))
                        rep.ob(e.id + ": precision_ is the inverse of covariance_", ok, where, det, how)
                else:
                    rep.ob(e.id + ": precision_ is None when it is not stored", prec is None, where, "%r" % (prec,))
                loc = to_T(st.get("location_"))
                rep.ob(e.id + ": location_ is set", loc is not None and [str(x) for x in loc.shape] == [str(pd)], where,
                       "%s" % (st.get("location_", "missing"),))
                if loc is not None:
                    cen = e.p1.get("assume_centered", True)
                    if cen:
                        rep.ob(e.id + ": location_ is zero", loc.is_zero(), where, tf.show(loc)[:100])
                    else:
                        k = tf.fresh()
                        X = X_T(e.cplx, e.kron)
                        mu = tf.scale_T(tf.contract([(X, [k] + list(range(X.n - 1)))], list(range(X.n - 1)), X.sizes[1:],
                                                    X.dims[1:], {k: n}), R.inv(n))
                        ok, how, det = same(loc, mu, dims=est_dims(e))
                        rep.ob(e.id + ": location_ is the mean", ok, where, det, how)
                if e.iterative:
                    natural = e.p1.get("method") == "natural gradient"
                    for at in ("err_", "iteration_"):
                        fresh_ = at in st and (natural or st[at] is not q.interp.stale.get(at) or at not in q.interp.stale)
                        rep.ob("%s: %s is set by the fit" % (e.id, at), fresh_, where)
                if e.kron:
                    for at, d in (("A_", a), ("B_", b)):
                        t = to_T(st.get(at))
                        rep.ob("%s: %s is set" % (e.id, at), t is not None and t.n == 2 and t.dims[0] == d and t.dims[1] == d, where)
                    if to_T(st.get("A_")) is not None and to_T(st.get("B_")) is not None:
                        ok, how, det = same(cov, kronT(to_T(st["A_"]), to_T(st["B_"])), dims=KDIMS)
                        rep.ob(e.id + ": covariance_ is kron(A_, B_)", ok, where, det, how)
        rep.guard(e.id, go, where)
        methods(rep, prog, e, where)
    rep.parallel(estimators(), one)
    return rep


def methods(rep, prog, e, where):
    """inherited methods after a fit"""
    pd = R.mul(a, b) if e.kron else p

    def run(name, args):
        def build(it):
            o = e.make(it)
            e.fit(it, o)
            cov, loc = o.attrs.get("covariance_"), o.attrs.get("location_")
            r = it.call(it.getattr(o, name), [x(it) for x in args], {})
            return {"r": r, "cov": cov, "loc": loc}
        return explore(prog, build)
    Y = lambda it: arr(it, X_T(e.cplx, e.kron, "Y"), e.cplx)
    C = lambda it: arr(it, leafT("C", (pd, pd), real=not e.cplx, herm=True, psd=True, inv=True), e.cplx)
    todo = [("get_precision", []), ("mahalanobis", [Y]), ("error_norm", [C])]
    if overrides_score(prog, e) is False:
        todo.append(("score", [Y]))
    for name, args in todo:
        def go():
            qs = run(name, args)
            bad = [q for q in qs if q.outcome == "raise"]
            rep.ob("%s: %s works after a fit" % (e.id, name), bool(returned(qs)) and not bad, where,
                   "raises %s" % exc_name(bad[0]) if bad else "")
            for q in returned(qs):
                cov, loc, r = to_T(q.result["cov"]), to_T(q.result["loc"]), to_T(q.result["r"])
                if cov is None or r is None or loc is None:
                    rep.ob("%s: %s returns a value" % (e.id, name), False, where, "%r" % (q.result["r"],))
                    continue
                cov = one_index(cov)
                if name == "get_precision":
                    ok, how, det = same(one_index(r), tf.mpow(cov, R.const(-1)), dims=est_dims(e))
                    rep.ob("%s: get_precision is the inverse of covariance_" % e.id, ok, where, det, how)
                elif name == "mahalanobis" and not e.kron:
                    k = X_T(e.cplx, False, "Y")
                    Z = tf.add_T(k, tf.contract([(tf.scale_T(loc, -1), [1])], [0, 1], (1, 1), (n, p), {}))
                    ok, how, det = same(r, maha(e.cplx, cov, Z), dims=est_dims(e))
                    rep.ob("%s: mahalanobis uses the fitted location and covariance" % e.id, ok, where, det, how)
                elif name == "error_norm" and not e.kron:
                    D = tf.sub_T(leafT("C", (p, p), real=not e.cplx, herm=True, psd=True, inv=True), cov)
                    i, j = tf.fresh(), tf.fresh()
                    f2 = tf.scale_T(tf.contract([(D, [i, j]), (tf.conj_T(D), [i, j])], [], (), (), {i: p, j: p}), R.inv(p))
                    ok, how, det = same(r, f2, dims=est_dims(e))
                    rep.ob("%s: error_norm is the scaled squared Frobenius distance" % e.id, ok, where, det, how)
        rep.guard("%s: %s" % (e.id, name), go, where)


def one_index(t):
    return t


def overrides_score(prog, e):
    """False when score is the inherited Gaussian log-likelihood (possibly through super())"""
    import ast
    if e.cls in ("RealEmpiricalCovariance", "ComplexEmpiricalCovariance", "TylerShapeMatrix", "ComplexTylerShapeMatrix"):
        return False
    src = prog.src(e.mod)
    for nd in src.tree.body:
        if isinstance(nd, ast.ClassDef) and nd.name == e.cls:
            return any(isinstance(f, ast.FunctionDef) and f.name == "score" for f in nd.body)
    return None


# ------------------------------------------------------------------ E02
def fingerprint(q, it, mark):
    """results and loops of what happened after the mark, names normalised"""
    path = q
    leaves, syms, labs = {}, {}, {}
    loops = [l for l in path.loops[mark["loops"]:] if l.mode != "zero"]
    live = live_vars(path, loops, mark)
    for i, rec in enumerate(loops):
        seen = {}
        for k, v in sorted(rec.phi.items(), key=lambda x: order(x[0])):
            if (i, k) not in live:
                continue
            seen[site(k)] = seen.get(site(k), -1) + 1
            for ip, ph in enumerate(arrs(v)):
                for nd in tf.walk_nodes(ph.t):
                    if nd.kind == "leaf" and nd.args[0].startswith("phi%d." % rec.ordinal):
                        nm = "PHI%d.%s#%d.%d" % (i, site(k), seen[site(k)], ip)
                        leaves[nd] = tf.from_node(tf.mknode("leaf", (nm,) + tuple(nd.args[1:]), nd.dims, real=nd.real, herm=nd.herm,
                                                            psd=nd.psd, pos=nd.pos, unitary=nd.unitary, inv=nd.inv,
                                                            info=nd.info, nb=nd.nb))
        if getattr(rec, "count_sym", None):
            syms[rec.count_sym] = R.sym("K%d" % i)
        if rec.label is not None:
            labs[rec.label] = ("o", "L%d" % i)
    off = mark["names"]

    class Ren(tf.Subst):
        def _node(self, node):
            if node.kind == "leaf" and node.args[0].startswith("$"):
                base, _, k = node.args[0].partition("'")
                k = (int(k) if k else 0) - off.get(base, 0)
                if k >= 0:
                    return tf.from_node(tf.mknode("leaf", ("%s#%d" % (base, k),) + tuple(node.args[1:]), node.dims, real=node.real,
                                                  herm=node.herm, psd=node.psd, pos=node.pos, unitary=node.unitary,
                                                  inv=node.inv, info=node.info, nb=node.nb))
            return super()._node(node)
    ren = Ren(leaves, syms)
    foreign = set()

    def key(v):
        if isinstance(v, Arr):
            t = v.t
            if labs:
                t = npm.relabel(t, labs)
            t = ren(t)
            for nd in tf.walk_nodes(t):
                if nd.kind == "leaf":
                    nm = nd.args[0]
                    if nm == "X" or (nm.startswith("phi") or nm.startswith("$")) and "#" not in nm:
                        foreign.add(nm)
            return ("T", t)
        if isinstance(v, (list, tuple)):
            return ("L",) + tuple(key(x) for x in v)
        if isinstance(v, (str, bool, int, float, type(None), interp.Fraction)):
            t = to_T(v)
            return ("T", t) if t is not None else ("P", repr(v))
        if v is interp.UNDEF:
            return ("U",)
        return ("O", type(v).__name__)
    res = {k: key(v) for k, v in q.result.items() if k not in ("self",)} if isinstance(q.result, dict) else {}
    lp = []
    for i, rec in enumerate(loops):
        items = sorted(((site(k), key(rec.init.get(k)), key(rec.next.get(k)), order(k)) for k in rec.phi if (i, k) in live),
                       key=lambda x: (x[0], x[3]))
        items = [x[:3] for x in items]
        lp.append((rec.mode, rec.peeled, rec.exit if isinstance(rec.exit, str) else None, tuple(items)))
    conds = []
    for cd in q.conds[mark["conds"]:]:
        t = cd.t
        if hasattr(t, "terms"):
            key(Arr(t, "f"))
    return (tuple(sorted(res.items(), key=lambda x: x[0])), tuple(lp)), foreign


def live_vars(path, loops, mark):
    """loop variables that the results or the conditions depend on"""
    owner = {}
    for i, rec in enumerate(loops):
        for k, v in rec.phi.items():
            for ph in arrs(v):
                for nd in tf.walk_nodes(ph.t):
                    if nd.kind == "leaf" and nd.args[0].startswith("phi%d." % rec.ordinal):
                        owner[nd] = (i, k)
    live, todo = set(), []

    def reach(v):
        if isinstance(v, (list, tuple)):
            for x in v:
                reach(x)
            return
        t = v.t if isinstance(v, Arr) else v
        if hasattr(t, "terms"):
            for nd in tf.walk_nodes(t):
                k = owner.get(nd)
                if k is not None and k not in live:
                    live.add(k)
                    todo.append(k)
    for v in (path.result.values() if isinstance(path.result, dict) else ()):
        reach(v)
    for cd in path.conds[mark["conds"]:]:
        reach(cd.t)
    while todo:
        i, k = todo.pop()
        reach(loops[i].next.get(k))
        reach(loops[i].init.get(k))
    return live


def site(k):
    """name of a loop variable; objects are known by the place that created them"""
    if isinstance(k, str):
        return k
    k = k[-1]
    return str(k[:-1]) if isinstance(k, tuple) else str(k)


def order(k):
    if isinstance(k, str):
        return (k, 0)
    s = k[-1]
    return (str(k[:-1]) + site(k), s[-1] if isinstance(s, tuple) and isinstance(s[-1], int) else 0)


def arrs(v):
    if isinstance(v, Arr):
        yield v
    elif isinstance(v, (list, tuple)):
        for x in v:
            yield from arrs(x)


FITTED = ("covariance_", "precision_", "location_", "err_", "iteration_", "A_", "B_", "estimate_")


def published(o):
    return {k: o.attrs[k] for k in FITTED if k in o.attrs}


def mark(it):
    it.mark = {"loops": len(it.path.loops), "names": dict(it.path.names), "conds": len(it.path.conds)}


def scenario(prog, e, what):
    """fit with Y under the second parameter setting, after a history"""
    def build(it):
        if what == "fresh":
            o = e.make(it, e.p2)
        elif what == "refit":
            o = e.make(it, e.p2)
            e.fit(it, o, "X")
        elif what == "refit on data of another shape":
            o = e.make(it, e.p2)
            e.fit(it, o, "X", True)
        elif what == "set_params":
            o = e.make(it, e.p1)
            e.fit(it, o, "X")
            it.call(it.getattr(o, "set_params"), [], {k: val(v) for k, v in e.p2.items()})
        elif what in ("copy", "clone"):
            o0 = e.make(it, e.p1)
            e.fit(it, o0, "X")
            o = ext.deepcopy_(it, o0) if what == "copy" else ext.clone_(it, o0)
            it.call(it.getattr(o, "set_params"), [], {k: val(v) for k, v in e.p2.items()})
            it.orig = (o0, dict(o0.attrs), {k: v.t.id for k, v in o0.attrs.items() if isinstance(v, Arr)})
        mark(it)
        it.params = dict(o.attrs)
        e.fit(it, o, "Y")
        it.after = dict(o.attrs)
        return published(o)
    return explore(prog, build)


@check("E02")
def e02():
    rep = Report("E02", "Non-interference: the values published by a fit and the states of its loops after a history (earlier fit, "
                 "set_params, copy, clone) are compared with those of a fresh estimator, and mention nothing of the earlier fit; "
                 "hyper-parameters are not assigned; fitting a copy assigns nothing in the original.")
    def one(rep, e):
        prog = Program()
        rep.progs.append(prog)
        where = e.where(prog)

        def go():
            fresh = []
            for q in returned(scenario(prog, e, "fresh")):
                fp, _ = fingerprint(q, q.interp, q.interp.mark)
                fresh.append(fp)
                hyper(rep, e, q, where)
            if not fresh:
                rep.ob(e.id + ": a result", None, where, "no path returns")
                return
            for what in ("refit", "refit on data of another shape", "set_params", "copy", "clone"):
                qs = scenario(prog, e, what)
                rs = [q for q in qs if q.outcome == "raise"]
                rep.ob("%s: %s then fit succeeds" % (e.id, what), not rs and bool(returned(qs)), where,
                       "raises %s" % exc_name(rs[0]) if rs else "")
                for q in returned(qs):
                    fp, foreign = fingerprint(q, q.interp, q.interp.mark)
                    rep.ob("%s: fit after %s reads nothing of the earlier fit" % (e.id, what), not foreign, where,
                           "depends on %s" % sorted(foreign)[:4])
                    ok, how, det = matches(fp, fresh, est_dims(e))
                    rep.ob("%s: fit after %s equals a fresh fit with the same parameters" % (e.id, what), ok, where, det, how)
                    hyper(rep, e, q, where)
                    if hasattr(q.interp, "orig"):
                        o0, before, ids = q.interp.orig
                        ch = [k for k, v in o0.attrs.items() if k not in before or before[k] is not v]
                        ch += [k for k, v in o0.attrs.items() if isinstance(v, Arr) and ids.get(k) != v.t.id]
                        rep.ob("%s: fitting a %s leaves the original alone" % (e.id, what), not ch, where, "changed: %s" % ch)
        rep.guard(e.id, go, where)
    rep.parallel([OnlineEst()] + estimators(), one)
    return rep


def matches(fp, fresh, dims):
    """equal to one of the fresh fingerprints: as normal forms, otherwise by random interpretation"""
    if fp in fresh:
        return True, "normal form", ""
    best = None
    for f in fresh:
        r = equal_key(fp, f, dims)
        if r[0]:
            return r
        best = r if best is None or len(r[2]) > len(best[2]) else best
    return best or (False, "", "no fresh fit")


def equal_key(x, y, dims, at=""):
    if isinstance(x, tf.T) or isinstance(y, tf.T):
        if not (isinstance(x, tf.T) and isinstance(y, tf.T)):
            return False, "", at + ": another kind of value"
        r = SAME.get((x.id, y.id))
        if r is None:
            r = SAME[x.id, y.id] = same(x, y, dims=dims)
        return r[0], r[1], "%s: %s" % (at, r[2]) if r[2] else ""
    if isinstance(x, tuple) and isinstance(y, tuple):
        if len(x) != len(y):
            return False, "", at + ": other length"
        how = "normal form"
        for a_, b_ in zip(x, y):
            r = equal_key(a_, b_, dims, a_[0] if isinstance(a_, tuple) and a_ and isinstance(a_[0], str) and len(a_[0]) > 1 else at)
            if not r[0]:
                return r
            if r[1] == "random interpretation":
                how = r[1]
        return True, how, ""
    return x == y, "normal form", "" if x == y else "%s: %s instead of %s" % (at, x, y)


SAME = {}


def hyper(rep, e, q, where):
    bef, aft = q.interp.params, q.interp.after
    ch = [k for k in e.p1 if bef.get(k) is not aft.get(k)]
    rep.ob(e.id + ": fit changes no hyper-parameter", not ch, where, "changed: %s" % ch)


# ------------------------------------------------------------------ E03
VALUES = {"method": ("fixed-point", "natural gradient"), "normalisation": ("trace", "None"), "verbosity": (False, True),
          "store_precision": (True, False), "assume_centered": (True, False),
          "estimatetocov": (None, None), "cost": (None, None)}


def package_classes(prog):
    """(module, class name) of every class of the package with scikit-learn's BaseEstimator among its ancestors"""
    import ast
    import os
    out = []
    root = os.path.join(interp.REPO, "robuststats")
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in sorted(fs):
            if not f.endswith(".py"):
                continue
            m = os.path.relpath(os.path.join(d, f), interp.REPO)[:-3].replace(os.sep, ".")
            m = m[:-len(".__init__")] if m.endswith(".__init__") else m
            try:
                src = prog.src(m)
            except tf.Unsupported:
                continue
            for nd in src.tree.body:
                if isinstance(nd, ast.ClassDef):
                    out.append((m, nd.name))
    return out


def marker(it, mod, name, k):
    """a value that no expression of the constructor produces by itself"""
    if name in VALUES:
        return VALUES[name][k]
    if name == "estimator":
        return it.call(it.get(COV, "ComplexCenteredStudentMLE"), [val(("sym", "df", "f"))], {})
    if name in ("a", "b", "iter_max", "n_jobs"):
        return Arr(tf.scalar(R.sym("%s%d" % (name, k + 1))), "i", py=True)
    if name in ("tol", "df", "lrate"):
        return Arr(tf.scalar(R.sym("%s%d" % (name, k + 1))), "f", py=True)
    if name == "q":
        return Arr(tf.scalar(QQ if k == 0 else QQ2), "f", py=True)
    return Opaque("argument %s %d" % (name, k))


tf.POS_SYMBOLS.update({"%s%d" % (x, k) for x in ("tol", "df", "lrate", "a", "b", "iter_max", "n_jobs") for k in (1, 2)})
tf.INT_SYMBOLS.update({"%s%d" % (x, k) for x in ("a", "b", "iter_max", "n_jobs") for k in (1, 2)})


def reaches(v, target, seen=None):
    """path from a value to an object through attributes, closures and bound methods"""
    seen = set() if seen is None else seen
    if id(v) in seen:
        return None
    seen.add(id(v))
    if v is target:
        return []
    if isinstance(v, Inst):
        kids = list(v.attrs.items())
    elif isinstance(v, Bound):
        kids = [("__self__", v.self), ("__func__", v.func)]
    elif isinstance(v, Func):
        kids, e = [], v.env
        while e is not None:
            if e.func is not None and not isinstance(e.func, interp._ModFn):
                kids += list(e.vars.items())
            e = e.parent
        kids += [("default", d) for d in list(v.defaults) + list(v.kwdefaults.values() if isinstance(v.kwdefaults, dict) else v.kwdefaults)]
    elif isinstance(v, Native):
        kids = [("argument", x) for x in getattr(v, "parts", ())]
    elif isinstance(v, (list, tuple, set)):
        kids = [("item", x) for x in v]
    elif isinstance(v, dict):
        kids = list(v.items())
    else:
        return None
    for k, x in kids:
        r = reaches(x, target, seen)
        if r is not None:
            return [str(k)] + r
    return None


def local_functions(v, path=(), seen=None):
    """functions made at run time that an object holds (they cannot be pickled)"""
    seen = set() if seen is None else seen
    if id(v) in seen:
        return
    seen.add(id(v))
    if isinstance(v, Func):
        e = v.env
        while e is not None:
            if e.func is not None and not isinstance(e.func, interp._ModFn):
                yield ".".join(path)
                return
            e = e.parent
        if v.name == "<lambda>":
            yield ".".join(path)
    elif isinstance(v, Inst):
        for k, x in v.attrs.items():
            yield from local_functions(x, path + (str(k),), seen)
    elif isinstance(v, Bound):
        yield from local_functions(v.self, path, seen)
    elif isinstance(v, (list, tuple)):
        for x in v:
            yield from local_functions(x, path, seen)
    elif isinstance(v, dict):
        for k, x in v.items():
            yield from local_functions(x, path + (str(k),), seen)
    elif isinstance(v, Native):
        for x in getattr(v, "parts", ()):
            yield from local_functions(x, path, seen)


@check("E03")
def e03():
    rep = Report("E03", "For every estimator and transformer class, the constructor is interpreted on marker values: each parameter "
                 "is stored as the very object given; get_params lists them all; set_params, clone and deepcopy are interpreted on "
                 "new and on fitted objects; no attribute of a copy reaches the original through attributes, closures or bound "
                 "methods, and no attribute is a function created at run time.")
    prog = Program()
    rep.progs.append(prog)
    names = []

    def discover():
        def build(it):
            out = []
            for m, nm in package_classes(prog):
                cls = it.get(m, nm)
                if isinstance(cls, interp.ClassObj) and any(isinstance(x, Opaque) and x.name == "sklearn.BaseEstimator" for x in cls.mro()):
                    init, _ = cls.lookup("__init__")
                    a_ = init.node.args
                    out.append((m, nm, ext.param_names(init), a_.vararg is not None,
                                len(a_.posonlyargs + a_.args) - 1))
            return out
        for q in returned(explore(prog, build)):
            names.extend(q.result)
            break
    rep.guard("classes", discover)
    rep.ob("estimator classes found", len(names) >= 8 or None, "", "%s" % [x[1] for x in names])

    def one(rep, item):
        m, nm, params, var, npos = item
        prog = Program()
        rep.progs.append(prog)
        where = anchor(prog, m, nm)
        rep.ob("%s: no *args in the constructor" % nm, not var, where)
        for k in (0, 1):
            def build(it):
                given = {x: marker(it, m, x, k) for x in params}
                pos = params[:npos] if k else []
                o = it.call(it.get(m, nm), [given[x] for x in pos], {x: v for x, v in given.items() if x not in pos})
                gp = it.call(it.getattr(o, "get_params"), [], {})
                other = {x: marker(it, m, x, 1 - k) for x in params}
                stored = dict(o.attrs)
                cl = ext.clone_(it, o)
                gpc = it.call(it.getattr(cl, "get_params"), [], {})
                r = it.call(it.getattr(o, "set_params"), [], dict(other))
                gp2 = it.call(it.getattr(o, "get_params"), [], {})
                return {"given": given, "stored": stored, "gp": gp, "o": o, "cl": cl, "gpc": gpc, "other": other, "r": r, "gp2": gp2}

            def go():
                qs = explore(prog, build)
                bad = [q for q in qs if q.outcome == "raise"]
                rep.ob("%s: construction, get_params, clone and set_params succeed" % nm, bool(returned(qs)) and not bad, where,
                       "raises %s" % exc_name(bad[0]) if bad else "")
                for q in returned(qs):
                    z = q.result
                    for x in params:
                        rep.ob("%s: %s is stored unchanged" % (nm, x), z["stored"].get(x, "missing") is z["given"][x], where,
                               "stored %r for %r" % (z["stored"].get(x, "missing"), z["given"][x]))
                        rep.ob("%s: get_params returns %s" % (nm, x), isinstance(z["gp"], dict) and z["gp"].get(x, "missing") is z["given"][x],
                               where, "%r" % (z["gp"],))
                        rep.ob("%s: set_params sets %s" % (nm, x), isinstance(z["gp2"], dict) and z["gp2"].get(x, "missing") is z["other"][x],
                               where)
                        rep.ob("%s: a clone has the same %s" % (nm, x), equal_value(z["gpc"].get(x, "missing"), z["given"][x]), where)
                    rep.ob("%s: set_params returns the estimator" % nm, z["r"] is z["o"], where)
                    tied(rep, nm, "a clone", z["cl"], z["o"], where)
            rep.guard("%s: constructor" % nm, go, where)

        def empty():
            # values that a constructor could take for "nothing given", one at a time; a constructor may refuse them
            for x in params:
                for what, v in (("None", None), ("zero", Arr(tf.scalar(R.const(0)), "i", py=True)), ("False", False),
                                ("an empty string", ""), ("a negative number", Arr(tf.scalar(R.const(-1)), "i", py=True)),
                                ("an array", None)):
                    def build(it):
                        u = v if what != "an array" else Arr(leafT("param", (R.const(2), R.const(2)), real=True), "f")
                        given = {y: marker(it, m, y, 0) for y in params}
                        given[x] = u
                        o = it.call(it.get(m, nm), [], given)
                        return u, o.attrs.get(x, "missing")
                    try:
                        qs = returned(explore(prog, build))
                    except tf.Unsupported:
                        continue
                    for q in qs:
                        u, got = q.result
                        rep.ob("%s: %s is stored unchanged when it is %s" % (nm, x, what), got is u, where, "stored %r" % (got,))
        rep.guard("%s: empty values" % nm, empty, where)

        def defaults():
            import ast
            cls = None

            def build(it):
                cls = it.get(m, nm)
                init, _ = cls.lookup("__init__")
                need = required(init)
                given = {x: marker(it, m, x, 0) for x in need}
                o = it.call(cls, [], given)
                dc = ext.deepcopy_(it, o)
                ext.clone_(it, o)
                return {"o": o, "dc": dc}
            qs = explore(prog, build)
            bad = [q for q in qs if q.outcome == "raise"]
            rep.ob("%s: default construction and copies succeed" % nm, bool(returned(qs)) and not bad, where,
                   "raises %s" % exc_name(bad[0]) if bad else "")
            for q in returned(qs):
                tied(rep, nm, "a copy", q.result["dc"], q.result["o"], where)
        rep.guard("%s: defaults" % nm, defaults, where)
    rep.parallel(names, one)

    def fitted(rep, e):
        prog = Program()
        rep.progs.append(prog)
        where = e.where(prog)

        def build(it):
            o = e.make(it)
            e.fit(it, o)
            return {"o": o, "dc": ext.deepcopy_(it, o), "cl": ext.clone_(it, o)}

        def go():
            qs = explore(prog, build)
            for q in returned(qs):
                tied(rep, e.id, "a copy of a fitted object", q.result["dc"], q.result["o"], where)
                tied(rep, e.id, "a clone of a fitted object", q.result["cl"], q.result["o"], where)
        rep.guard(e.id + ": fitted copies", go, where)
    rep.parallel([e for e in estimators() if "to " in e.id or "[" not in e.id or e.store], fitted)
    return rep


def required(init):
    a_ = init.node.args
    pos = [x.arg for x in a_.posonlyargs + a_.args][1:]
    pos = pos[:len(pos) - len(a_.defaults)] if len(a_.defaults) <= len(pos) else []
    return pos + [x.arg for x, d in zip(a_.kwonlyargs, a_.kw_defaults) if d is None]


def equal_value(x, y):
    if x is y:
        return True
    if isinstance(x, Arr) and isinstance(y, Arr):
        return x.t is y.t
    if isinstance(x, Inst) and isinstance(y, Inst):
        return x.cls is y.cls
    return type(x) is type(y) and not isinstance(x, (Opaque, Func, Bound, Native)) and x == y


def tied(rep, nm, what, copy, orig, where):
    r = reaches(copy, orig)
    rep.ob("%s: %s does not lead back to the original" % (nm, what), r is None, where, "through %s" % ".".join(r or ()))
    lf = list(local_functions(copy))
    rep.ob("%s: %s holds no function created at run time" % (nm, what), not lf, where, "%s" % lf)


# ------------------------------------------------------------------ E05
def state_of(o):
    """attributes of an object and the values of its arrays"""
    return {k: (v.t.id if isinstance(v, Arr) else id(v) if not isinstance(v, (str, int, bool, type(None))) else v) for k, v in o.attrs.items()}


def row(it, v, k):
    """component k of a stack; k is a number or the name of an arbitrary index"""
    if isinstance(k, int):
        return it.getitem(v, k)
    return npm.sym_elem(it, v, ("o", k))


BATCHES = [("CovariancesEstimation", [("Probe", True, {}), ("Probe[init]", True, {}), ("RealEmpiricalCovariance", False, {"assume_centered": True}),
                                      ("ComplexEmpiricalCovariance", True, {"assume_centered": False})], [m, 1, 2, 3]),
           ("FeaturesEstimation", [("Probe", True, {}), ("ProbePair", False, {}), ("ProbeScalar", False, {}),
                                   ("RealEmpiricalCovariance", False, {"assume_centered": False})], [1, 2, 4])]


@check("E05")
def e05():
    rep = Report("E05", "transform of both batch transformers is interpreted on stacks of symbolic size and of sizes 1 to 4, for one "
                 "and several jobs, with estimators whose estimate depends on the number of fits made with the object; every "
                 "position is compared with a fit of a new estimator on that element.")
    items = [(cls, ec, cplx, kw, size, jobs) for cls, ests, sizes in BATCHES for ec, cplx, kw in ests for size in sizes
             for jobs in (1, 2, -1)]

    def one(rep, item):
        cls, ec, cplx, kw, size, jobs = item
        name = "%s(%s, n_jobs=%d) on %s elements" % (cls, ec, jobs, size if isinstance(size, int) else "any number of")
        prog = Program()
        rep.progs.append(prog)
        where = anchor(prog, BASE, cls)
        for dt in (["c", "f", "i"] if ec.startswith("Probe") and cplx else ["c"] if cplx else ["f", "i"]):
            tag = name + {"c": ", complex data", "f": ", real data", "i": ", integer data"}[dt]

            def build(it):
                mod, nm = (BASE if ec.endswith("Covariance") else "probes"), ec.partition("[")[0]
                pk = {k: val(v) for k, v in kw.items()}
                if mod == "probes":
                    pk["gain"] = val(("sym", "c", "f"))
                mk = lambda: it.call(it.get(mod, nm), [], dict(pk))
                e = mk()
                o = it.call(it.get(BASE, cls), [e], {"n_jobs": jobs})
                sz = R.const(size) if isinstance(size, int) else size
                X = Arr(leafT("X", (sz, n, p), (1, 1, 1), real=dt != "c"), dt, roots=frozenset({"X"}))
                it.register(X)
                x0 = X.t.id
                before, ne = state_of(e), len(it.path.events)
                fk = {}
                if ec.endswith("[init]"):
                    fk["init"] = arr(it, S_T(True), True)
                r = it.call(it.getattr(o, "transform"), [X], dict(fk))
                after, ev = state_of(e), it.path.events[ne:]
                ks = ["gen"] if not isinstance(size, int) else list(range(size))
                out = []
                for k in ks:
                    f = mk()
                    x = row(it, Arr(X.t, X.dt), k)
                    it.call(it.getattr(f, "fit"), [x], dict(fk))
                    w = it.call(it.getattr(f, "transform"), [x], {})
                    w = list(w) if isinstance(w, (list, tuple)) else [w]
                    if cls == "FeaturesEstimation":
                        g = list(it.getattr(r, "_array"))
                        ln = it.call(it.getattr(r, "__len__"), [], {})
                        g = [row(it, y, k) for y in g]
                    else:
                        g, ln = [row(it, r, k)], it.npm.num(r.shape[0])
                    out.append((g, w))
                return {"before": before, "after": after, "out": out, "n": ln, "x": X.t.id == x0, "size": sz, "ev": ev}

            def go():
                qs = explore(prog, build)
                bad = [q for q in qs if q.outcome == "raise"]
                rep.ob(tag + ": returns", bool(returned(qs)) and not bad, where, "raises %s" % exc_name(bad[0]) if bad else "")
                for q in returned(qs):
                    z = q.result
                    rep.ob(tag + ": the estimator given is left as it was", z["before"] == z["after"], where,
                           "changed: %s" % [k for k in z["after"] if z["after"][k] != z["before"].get(k)])
                    rep.ob(tag + ": the data are left as they were", z["x"], where)
                    rep.ob(tag + ": one entry per element", to_T(z["n"]) is tf.scalar(z["size"]), where, "%r" % (z["n"],))
                    nar = [e for e in z["ev"] if e.kind == "narrow"]
                    rep.ob(tag + ": values are stored without loss", not nar, where, "%s" % nar[:1])
                    for k, (g, w) in enumerate(z["out"]):
                        rep.ob("%s: position %s has all components" % (tag, k), len(g) == len(w), where, "%d instead of %d" % (len(g), len(w)))
                        for x, y in zip(g, w):
                            t, u = to_T(x), to_T(y)
                            if u.n == 0 and t.n == 1:
                                t = to_T(q.interp.getitem(x, 0))
                            ok, how, det = same(t, u)
                            rep.ob("%s: position %s is the fit of element %s" % (tag, k, k), ok, where, det, how)
                            rep.ob("%s: position %s keeps its type" % (tag, k), npm.promote(x.dt, y.dt) == x.dt, where, "%s for %s" % (x.dt, y.dt))
            rep.guard(tag, go, where)
    rep.parallel(items, one)
    return rep


# ------------------------------------------------------------------ E06
C3, C2 = R.const(3), R.const(2)
SHAPES = {"matrix": (p, p), "vector": (n,), "row": (R.const(1), p), "small": (C3, C2)}
SEQUENCES = [[0], [1], [3], [0, 0], [0, 1, 2], [1, 3, 0], [2, 2, 2, 2], [1, 999], [1, 1000], [999, 1, 1], [1, 1500, 1], [2, 2500, 0],
             [1, 700, 700], [1001, 1], [1, 1000, 1], [1, 1000, 1000]]


def container(it, shapes):
    return it.call(it.get(BASE, "_FeatureArray"), [tuple(it.npm.num(x) for x in s) for s in shapes], {})


def item(it, name, shape, s, cplx, dt=None, dims=None):
    """s samples of a component (0: one sample without the sample axis)"""
    d = ((R.const(s),) if s else ()) + tuple(shape)
    x = Arr(leafT(name, d, (1,) * len(d), real=not cplx), dt or ("c" if cplx else "f"), roots=frozenset({name}))
    it.register(x)
    return x


def stack(it, parts, shape):
    """the samples of all parts, in order"""
    out = None
    for x, s in parts:
        v = Arr(x.t, x.dt)
        if not s:
            v = it.getitem(v, (None, Ellipsis))
        out = v if out is None else it.call(it.npm.NP["concatenate"], [[out, v]], {"axis": 0})
    return out


def snapshot(o):
    r = {}
    for k, v in o.attrs.items():
        if isinstance(v, (list, tuple)):
            r[k] = [x.t.id if isinstance(x, Arr) else x for x in v]
        else:
            r[k] = v.t.id if isinstance(v, Arr) else v
    return r


KEYS = [("first", 0, lambda t: [0]), ("last", -1, lambda t: [t - 1]), ("a slice", slice(1, 3), lambda t: list(range(t))[1:3]),
        ("everything", slice(None), None), ("a numpy integer", "np0", lambda t: [0]), ("a list", "list", lambda t: [t - 1, 0])]


@check("E06")
def e06():
    rep = Report("E06", "Sequences of appends with arbitrary contents (symbolic entries, symbolic sample shape, one to four components, "
                 "sizes on both sides of every growth of the buffers) are interpreted; length, shape, type, indexing, export, "
                 "vectorised and printed forms are compared with the concatenation of what was appended; refused appends are "
                 "compared before and after; writing to the caller's array afterwards changes nothing.")
    items = []
    for seq in SEQUENCES:
        big = max(seq) > 50
        for comps in ([("matrix",), ("matrix", "vector"), ("row", "small", "vector"), ("small",)] if not big else [("matrix",), ("vector", "small")]):
            for cplx in (False, True) if not big else (True,):
                items.append(("sequence", seq, comps, cplx))
    items += [("how", h, ("matrix", "vector"), True) for h in ("list", "tuple", "feature array")]
    items += [("how", h, ("matrix",), False) for h in ("array", "list", "tuple", "feature array")]
    items += [("vectorize", k, None, c_) for k in ("hermitian", "square", "rectangle", "vector", "mixed") for c_ in (False, True)]
    items += [("refuse", k, None, None) for k in range(len(refusals()))]
    items += [("empty", None, None, None)]
    items += [("derived", k, ("matrix", "vector"), True) for k in ("a slice", "one sample", "the container itself")]

    def one(rep, x):
        {"sequence": e06_sequence, "how": e06_how, "vectorize": e06_vectorize, "refuse": e06_refuse, "empty": e06_empty, "derived": e06_derived}[x[0]](rep, *x[1:])
    rep.parallel(items, one)
    return rep


def run06(rep, name, build, judge):
    prog = Program()
    rep.progs.append(prog)
    where = anchor(prog, BASE, "_FeatureArray")

    def go():
        qs = explore(prog, build)
        bad = [q for q in qs if q.outcome == "raise"]
        rep.ob(name + ": succeeds", bool(returned(qs)) and not bad, where, "raises %s" % exc_name(bad[0]) if bad else "")
        for q in returned(qs):
            judge(q, where)
    rep.guard(name, go, where)


def arrays_equal(rep, name, got, want, where):
    got = list(got) if isinstance(got, (list, tuple)) else [got]
    rep.ob(name + ": number of components", len(got) == len(want), where, "%d instead of %d" % (len(got), len(want)))
    for k, (g, w) in enumerate(zip(got, want)):
        if not isinstance(g, Arr):
            rep.ob("%s: component %d" % (name, k), False, where, "%r" % (g,))
            continue
        ok, how, det = same(g.t, w.t)
        rep.ob("%s: component %d holds the appended samples" % (name, k), ok, where, det, how)
        rep.ob("%s: component %d keeps its type" % (name, k), g.dt == w.dt, where, "%s instead of %s" % (g.dt, w.dt))


def views(it, f, total):
    """everything a user can read from the container"""
    z = {"len": it.call(it.getattr(f, "__len__"), [], {}), "shape": it.getattr(f, "shape"), "dtype": it.getattr(f, "dtype"),
         "export": it.call(it.getattr(f, "export"), [], {}), "nb": it.getattr(f, "nb_manifolds")}
    k = len(it.path.events)
    it.call(it.getattr(f, "__str__"), [], {})
    z["str"] = [e.arr for e in it.path.events[k:] if e.kind == "str"]
    z["items"] = []
    for nm, key, sel in KEYS:
        idx = list(range(total)) if sel is None else sel(total)
        if not idx or len(idx) > 50 and sel is not None:
            continue
        if key == "np0":
            key = Arr(tf.scalar(R.const(0)), "i")
        if key == "list":
            key = [total - 1, 0]
        g = it.getitem(f, key)
        z["items"].append((nm, idx, it.call(it.getattr(g, "__len__"), [], {}), it.getattr(g, "shape"), it.call(it.getattr(g, "export"), [], {})))
    return z


def pick(it, x, idx):
    if len(idx) == x.shape[0].const():
        if idx == list(range(len(idx))):
            return x
    out = None
    for k in idx:
        v = it.getitem(x, slice(k, k + 1))
        out = v if out is None else it.call(it.npm.NP["concatenate"], [[out, v]], {"axis": 0})
    return out


def shape_is(it, got, n_, shapes):
    want = [tuple([n_] + [str(x) for x in s]) for s in shapes]
    try:
        g = [tuple([int(s[0])] + [str(to_T_dim(x)) for x in s[1:]]) for s in got]
    except (TypeError, ValueError, AttributeError):
        return False
    return g == [tuple([w[0]] + list(w[1:])) for w in want]


def to_T_dim(x):
    if isinstance(x, Arr):
        return x.t.terms[0][1]
    return R.const(x)


def squeezed(it, x):
    return it.getitem(x, 0) if x.shape[0].const() == 1 else x


def judge_views(rep, name, q, z, want, total, shapes, where):
    it = q.interp
    rep.ob(name + ": length", z["len"] == total and not isinstance(z["len"], Arr), where, "%r instead of %d" % (z["len"], total))
    rep.ob(name + ": number of components reported", z["nb"] == len(shapes), where, "%r" % (z["nb"],))
    rep.ob(name + ": shape", shape_is(it, z["shape"], total, shapes), where, "%r" % (z["shape"],))
    rep.ob(name + ": dtype", [getattr(d, "kind", None) for d in z["dtype"]] == [w.dt for w in want], where, "%r" % (z["dtype"],))
    arrays_equal(rep, name + ": export", z["export"], [squeezed(it, w) for w in want], where)
    rep.ob(name + ": printed form", len(z["str"]) == len(want), where, "%d arrays are printed" % len(z["str"]))
    for k, (g, w) in enumerate(zip(z["str"], want)):
        ok, how, det = same(g.t, w.t)
        if not ok:
            ok, how, det = same(g.t, squeezed(it, w).t)
        rep.ob("%s: printed component %d holds the appended samples" % (name, k), ok, where, det, how)
    for nm, idx, ln, sh, ex in z["items"]:
        rep.ob("%s: length of %s" % (name, nm), ln == len(idx), where, "%r instead of %d" % (ln, len(idx)))
        rep.ob("%s: shape of %s" % (name, nm), shape_is(it, sh, len(idx), shapes), where, "%r" % (sh,))
        arrays_equal(rep, "%s: %s" % (name, nm), ex, [squeezed(it, pick(it, w, idx)) for w in want], where)


def e06_sequence(rep, seq, comps, cplx):
    name = "appends of %s samples to (%s)%s" % ([s or "one" for s in seq], ", ".join(comps), ", complex" if cplx else "")
    shapes = [SHAPES[c_] for c_ in comps]
    total = sum(s or 1 for s in seq)

    def build(it):
        f = container(it, shapes)
        given = []
        for k, s in enumerate(seq):
            data = [item(it, "D%d_%d" % (k, j), sh, s, cplx) for j, sh in enumerate(shapes)]
            given.append([(Arr(d.t, d.dt), s) for d in data])
            it.call(it.getattr(f, "append"), [data if len(data) > 1 or k % 2 else data[0]], {})
            for d in data:                                  # the caller reuses the array
                it.setitem(d, Ellipsis, 0)
        want = [stack(it, [g[j] for g in given], sh) for j, sh in enumerate(shapes)]
        return {"z": views(it, f, total), "want": want}
    run06(rep, name, build, lambda q, where: judge_views(rep, name, q, q.result["z"], q.result["want"], total, shapes, where))


def e06_how(rep, how, comps, cplx):
    name = "append of %s to (%s)" % (how, ", ".join(comps))
    shapes = [SHAPES[c_] for c_ in comps]
    total = 5

    def build(it):
        f = container(it, shapes)
        given = []
        for k, s in enumerate((2, 3)):
            data = [item(it, "D%d_%d" % (k, j), sh, s, cplx) for j, sh in enumerate(shapes)]
            given.append([(Arr(d.t, d.dt), s) for d in data])
            if how == "feature array":
                g = container(it, shapes)
                it.call(it.getattr(g, "append"), [data], {})
                arg = g
            else:
                arg = data if how == "list" else tuple(data) if how == "tuple" else data[0]
            it.call(it.getattr(f, "append"), [arg], {})
            if how == "feature array":
                it.call(it.getattr(g, "append"), [[item(it, "Z", sh, 1, cplx) for sh in shapes]], {})
        want = [stack(it, [g[j] for g in given], sh) for j, sh in enumerate(shapes)]
        return {"z": views(it, f, total), "want": want}
    run06(rep, name, build, lambda q, where: judge_views(rep, name, q, q.result["z"], q.result["want"], total, shapes, where))


def e06_vectorize(rep, kind, _, cplx):
    name = "vectorize of %s components%s" % (kind, ", complex" if cplx else "")
    shapes = {"hermitian": [(C3, C3)], "square": [(C3, C3)], "rectangle": [(C3, C2)], "vector": [(n,)],
              "mixed": [(C3, C2), (C3, C3), (n,)]}[kind]

    def build(it):
        f = container(it, shapes)
        given = []
        for k, s in enumerate((2, 1)):
            data = []
            for j, sh in enumerate(shapes):
                herm = kind in ("hermitian", "mixed") and len(sh) == 2 and sh[0] == sh[1]
                d = (R.const(s),) + tuple(sh)
                x = Arr(leafT("D%d_%d" % (k, j), d, (1,) * len(d), real=not cplx, **({"herm": True, "nb": 1} if herm else {})),
                        "c" if cplx else "f")
                it.register(x)
                data.append(x)
            given.append([(Arr(d.t, d.dt), s) for d in data])
            it.call(it.getattr(f, "append"), [data], {})
        want, alt = [], []
        for j, sh in enumerate(shapes):
            w = stack(it, [g[j] for g in given], sh)
            fl = it.call(it.getattr(w, "reshape"), [(3, -1)], {})
            if len(sh) == 2 and sh[0] == sh[1]:
                r_, c_ = it.call(it.npm.NP["triu_indices"], [3], {})
                up = it.getitem(w, (slice(None), r_, c_))
                want.append((up,) if kind in ("hermitian", "mixed") else (up, fl))
            else:
                want.append((fl,))
        outs = []
        for j0 in (0, 1):
            parts = [w[0] if j0 == 0 else w[-1] for w in want]
            outs.append(it.call(it.npm.NP["concatenate"], [parts], {"axis": 1}) if len(parts) > 1 else parts[0])
        return {"v": it.call(it.getattr(f, "vectorize"), [], {}), "tri": outs[0], "flat": outs[1]}

    def judge(q, where):
        v = q.result["v"]
        sym_ = any(c_.val and "all<" in str(c_.t) for c_ in q.conds)
        want = q.result["tri"] if sym_ or kind in ("hermitian", "mixed") else q.result["flat"]
        ok, how, det = same(v.t, want.t)
        if not ok and sym_:
            ok, how, det = same(v.t, q.result["flat"].t)
        rep.ob(name + ": every sample, entries in order, the upper triangle for Hermitian matrices", ok, where, det, how)
        rep.ob(name + ": type", v.dt == want.dt, where, v.dt)
    run06(rep, name, build, judge)


def refusals():
    """(name, shapes, appended before, refused data)"""
    mv = [(p, p), (n,)]
    ok2 = lambda it, s=2: [item(it, "U0", (p, p), s, True), item(it, "U1", (n,), s, True)]
    out = []
    for first in (False, True):
        st = "after an append" if first else "on an empty container"
        out += [("a string " + st, mv, first, lambda it: "abc"),
                ("None " + st, mv, first, lambda it: None),
                ("a number " + st, mv, first, lambda it: 1.5),
                ("too few components " + st, mv, first, lambda it: ok2(it)[:1]),
                ("a bare array for two components " + st, mv, first, lambda it: ok2(it)[0]),
                ("too many components " + st, mv, first, lambda it: ok2(it) + ok2(it)[:1]),
                ("a wrong sample shape in the last component " + st, mv, first, lambda it: [ok2(it)[0], item(it, "U", (R.add(n, R.const(1)),), 2, True)]),
                ("a wrong sample shape in the first component " + st, mv, first, lambda it: [item(it, "U", (p, R.add(p, R.const(1))), 2, True), ok2(it)[1]]),
                ("a wrong number of dimensions in the last component " + st, mv, first, lambda it: [ok2(it)[0], item(it, "U", (C2, C2, n), 2, True)]),
                ("different numbers of samples " + st, mv, first, lambda it: [ok2(it)[0], item(it, "U", (n,), 3, True)]),
                ("different numbers of samples, one without sample axis " + st, mv, first, lambda it: [ok2(it)[0], item(it, "U", (n,), 0, True)]),
                ("a component that is not an array " + st, mv, first, lambda it: [ok2(it)[0], [1.0, 2.0]])]
    out += [("another type in the last component", mv, True, lambda it: [ok2(it)[0], item(it, "U", (n,), 2, False)]),
            ("another type in the first component", mv, True, lambda it: [item(it, "U", (p, p), 2, False), ok2(it)[1]]),
            ("integers in a container of complex numbers", mv, True, lambda it: [ok2(it)[0], item(it, "U", (n,), 2, False, dt="i")]),
            ("a feature array of other shapes", mv, True, lambda it: other_container(it))]
    return out


def other_container(it):
    g = container(it, [(p, p), (R.add(n, R.const(1)),)])
    it.call(it.getattr(g, "append"), [[item(it, "U0", (p, p), 2, True), item(it, "U1", (R.add(n, R.const(1)),), 2, True)]], {})
    return g


def e06_refuse(rep, k, *_):
    what, shapes, first, mk = refusals()[k]
    name = "append of %s" % what
    prog = Program()
    rep.progs.append(prog)
    where = anchor(prog, BASE, "_FeatureArray")

    def build(it):
        f = container(it, shapes)
        if first:
            it.call(it.getattr(f, "append"), [[item(it, "D%d" % j, s, 2, True) for j, s in enumerate(shapes)]], {})
        bad = mk(it)
        it.f, it.before = f, snapshot(f)
        it.call(it.getattr(f, "append"), [bad], {})
        return None

    def go():
        qs = explore(prog, build)
        acc = returned(qs)
        rep.ob(name + ": is refused", not acc, where, "accepted" if acc else "")
        for q in qs:
            if q.outcome == "raise":
                aft = snapshot(q.interp.f)
                # an empty list of buffers means the same as none
                ch = [x for x in aft if aft[x] != q.interp.before.get(x) and not (not first and x == "_array" and not any(aft[x] or ()))]
                rep.ob(name + ": leaves the container as it was", not ch, where, "changed: %s" % ch)
    rep.guard(name, go, where)


def e06_derived(rep, kind, comps, cplx):
    """containers made from a container have their own samples"""
    shapes = [SHAPES[c_] for c_ in comps]
    name = "%s of (%s)" % (kind, ", ".join(comps))
    sub, tot = {"a slice": (slice(1, 3), 4), "one sample": (2, 3), "the container itself": (None, None)}[kind]

    def build(it):
        f = container(it, shapes)
        mk = lambda nm, s: [item(it, nm + str(j), sh, s, cplx) for j, sh in enumerate(shapes)]
        a_, b_, c_ = mk("A", 4), mk("B", 2), mk("C", 3)
        it.call(it.getattr(f, "append"), [a_], {})
        want_f = [Arr(x.t, x.dt) for x in a_]
        cat = lambda xs: it.call(it.npm.NP["concatenate"], [list(xs)], {"axis": 0})
        if sub is None:
            it.call(it.getattr(f, "append"), [f], {})
            want_f = [cat([x, x]) for x in want_f]
            return {"f": views(it, f, 8), "wf": want_f, "nf": 8}
        g = it.getitem(f, sub)
        want_g = [it.getitem(x, sub) if isinstance(sub, slice) else it.getitem(x, slice(sub, sub + 1)) for x in want_f]
        it.call(it.getattr(g, "append"), [b_], {})
        want_g = [cat([x, y]) for x, y in zip(want_g, b_)]
        it.call(it.getattr(f, "append"), [c_], {})
        want_f = [cat([x, y]) for x, y in zip(want_f, c_)]
        ng = (2 if isinstance(sub, slice) else 1) + 2
        return {"f": views(it, f, 7), "wf": want_f, "nf": 7, "g": views(it, g, ng), "wg": want_g, "ng": ng}

    def judge(q, where):
        z = q.result
        judge_views(rep, name + ": the original", q, z["f"], z["wf"], z["nf"], shapes, where)
        if "g" in z:
            judge_views(rep, name + ": the derived container", q, z["g"], z["wg"], z["ng"], shapes, where)
    run06(rep, name, build, judge)


def e06_empty(rep, *_):
    name = "an empty container"

    def build(it):
        f = container(it, [(p, p)])
        return {"len": it.call(it.getattr(f, "__len__"), [], {}), "str": it.call(it.getattr(f, "__str__"), [], {}), "dtype": it.getattr(f, "dtype")}

    def judge(q, where):
        rep.ob(name + ": length 0", q.result["len"] == 0, where)
        rep.ob(name + ": nothing is printed", isinstance(q.result["str"], str) and "array" not in q.result["str"], where)
        rep.ob(name + ": no types", len(q.result["dtype"]) == 0, where)
    run06(rep, name, build, judge)
