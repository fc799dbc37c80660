"""C01-C13: covariance estimators."""
import rat as R
import tf
from world import *
from chk import Report, same
from relate import (Relation, IDENT, ident, scale_by, left, last, congruence, to_T, relevant, loop_vars, phis_in,
                    result_values)

CHECKS = {}


def check(pid):
    def d(f):
        CHECKS[pid] = f
        return f
    return d


def runs(rep, cs, inits=(False, True)):
    """interpret the cases; yields (run, init)"""
    prog = Program()
    rep.progs.append(prog)
    for x in cs:
        for i in inits:
            if i and x.est in ("emp", "mm"):
                continue
            tag = x.id + ("+init" if i else "")
            r = rep.guard(tag + ": interpretation", lambda: x.run(prog, i), x.anchor(prog))
            if r is not None:
                yield r, i, tag


# ------------------------------------------------------------------ C01
def shape_is(t, *dims):
    return t.n == len(dims) and all(d == e for d, e in zip(t.dims, dims))


@check("C01")
def c01():
    rep = Report("C01", "Relational analysis over the tensor normal form: inputs X -> cX (init -> c^2 init); every loop "
                 "variable carries a power of c inductively, every branch condition is unchanged, results scale.")

    def cands(t):
        return [scale_by(k) if k else IDENT for k in (0, 2, 1, -2, -1, 4, -4)]
    for r, init, tag in runs(rep, cases(norms=("None", "trace", "determinant", "element")) + emp_cases() + mm_cases()):
        cs = r.case
        lv = {tf_node(X_T(cs.cplx, cs.kron)): tf.scale_T(X_T(cs.cplx, cs.kron), c)}
        if init:
            lv[tf_node(S_T(cs.cplx))] = tf.scale_T(S_T(cs.cplx), R.powi(c, 2))
        rel = Relation("scale", lv, cands, scales=[R.powi(c, k) for k in (1, 2, 4, -1, -2)])
        k = 0 if cs.est == "mm" or cs.est.startswith("tyler-") else 2
        w = scale_by(k) if k else IDENT
        wants = {"cov": w, "err": IDENT, "it": IDENT}
        if cs.est == "mm":
            wants.update(A=IDENT, B=IDENT)
        rep.guard(tag, lambda: rel.check(r, wants, rep, tag), r.where)
    return rep


def tf_node(t):
    return t.terms[0][0][1][0][0]


# ------------------------------------------------------------------ C02
@check("C02")
def c02():
    rep = Report("C02", "Relational analysis: samples x -> Wx (W unitary, real orthogonal for real data), init -> W init W^H; "
                 "loop states are congruence-covariant or invariant, conditions invariant, estimate -> W C W^H.")
    for r, init, tag in runs(rep, cases(norms=("None", "trace", "determinant")) + emp_cases()):
        cs = r.case
        W = leafT("W", (p, p), unitary=True, real=not cs.cplx, inv=True)
        Xt = X_T(cs.cplx)

        def cands(t):
            o = []
            if t.n >= 2 and t.dims[0] == p and t.dims[-1] == p:
                o.append(("W . W^H", lambda x: congruence(W, x)))
            if t.n >= 1 and t.dims[0] == p:
                o.append(("W .", lambda x: left(W, x)))
                o.append(("conj(W) .", lambda x: left(tf.conj_T(W), x)))
            if t.n >= 1 and t.dims[-1] == p:
                o.append((". W^T", lambda x: last(W, x)))
                o.append((". W^H", lambda x: last(tf.conj_T(W), x)))
            return o + [IDENT]
        lv = {tf_node(Xt): last(W, Xt)}
        if init:
            lv[tf_node(S_T(cs.cplx))] = congruence(W, S_T(cs.cplx))
        rel = Relation("rotation", lv, cands)
        wants = {"cov": ("becomes W C W^H", lambda x: congruence(W, x)), "err": IDENT, "it": IDENT}
        rep.guard(tag, lambda: rel.check(r, wants, rep, tag), r.where)
    for r, init, tag in runs(rep, mm_cases(), (False,)):
        U = leafT("U", (a, a), unitary=True, inv=True)
        V = leafT("V", (b, b), unitary=True, inv=True)
        Xt = X_T(True, True)
        x1, x2 = tf.fresh(), tf.fresh()
        Xr = tf.contract([(Xt, [0, x1, x2]), (U, [1, x1]), (V, [2, x2])], [0, 1, 2], Xt.sizes, Xt.dims, {x1: a, x2: b})

        def cands(t):
            o = []
            if t.n == 2 and t.dims[0] == a and t.dims[1] == a:
                o += [("U . U^H", lambda x: congruence(U, x)), ("conj(U) . U^T", lambda x: congruence(tf.conj_T(U), x))]
            if t.n == 2 and t.dims[0] == b and t.dims[1] == b:
                o += [("V . V^H", lambda x: congruence(V, x)), ("conj(V) . V^T", lambda x: congruence(tf.conj_T(V), x))]
            return o + [IDENT]
        rel = Relation("rotation", {tf_node(Xt): Xr}, cands, dims=KDIMS)

        def kron_rot(t):
            f = tf.flat(t)
            K = kronT(U, V)
            return tf.with_sizes(congruence(K, f), t.sizes)
        wants = {"A": ("becomes U A U^H", lambda x: congruence(U, x)), "B": ("becomes V B V^H", lambda x: congruence(V, x)),
                 "err": IDENT, "it": IDENT, "cov": ("becomes (U kron V) C (U kron V)^H", kron_rot)}
        rep.guard(tag, lambda: rel.check(r, wants, rep, tag), r.where)
    return rep


KDIMS = [{"n": 7, "a": 2, "b": 3, "p": 6}, {"n": 8, "a": 3, "b": 2, "p": 6}]


def kronT(A, B):
    """kron of two square forms, as a matrix with a single composite index"""
    da, db = A.dims[0], B.dims[0]
    s = tf.from_node(tf.split_node([da, db]))
    i, j, k, l = [tf.fresh() for _ in range(4)]
    d = R.mul(da, db)
    return tf.contract([(s, [0, i, j]), (s, [1, k, l]), (A, [i, k]), (B, [j, l])], [0, 1], (1, 1), (d, d),
                       {i: da, k: da, j: db, l: db})


# ------------------------------------------------------------------ C03
def all_values(run):
    """every value that decides the outcome: results, conditions, loop states"""
    seen = set()
    for q in run.paths:
        if q.outcome == "return":
            for k, v in result_values(q).items():
                t = to_T(v)
                if t is not None and t.id not in seen:
                    seen.add(t.id)
                    yield k, t, run.where
        for cd in q.conds:
            if hasattr(cd.t, "terms") and cd.t.id not in seen:
                seen.add(cd.t.id)
                yield "branch condition", cd.t, cd.where()
    for v in relevant(run.paths, None):
        for what in ("init", "next"):
            t = to_T(getattr(v, what))
            if t is not None and t.id not in seen:
                seen.add(t.id)
                yield "loop variable %s" % v.key, t, v.rec.where()


def perm_ob(rep, tag, name, t, where, data, dims=None):
    import perm
    phis = {x for x in phis_in(t) if perm.sample_slots(x, n)}
    d = set(data) | phis
    why = perm.equivariant(t, n, d)
    if why is None:
        rep.ob("%s: %s symmetric in the samples" % (tag, name), True, where)
        return
    ok, how, det = perm.numeric(t, n, d, dims)
    rep.ob("%s: %s symmetric in the samples" % (tag, name), ok, where, why + "; " + det, how)


@check("C03")
def c03():
    rep = Report("C03", "Dependence analysis of the sample axis: in every result, branch condition and loop state the sample "
                 "index occurs only as a summed (or elementwise) index of the data, never fixed, shifted or weighted by position.")
    for r, init, tag in runs(rep, cases(norms=("None", "trace")) + emp_cases() + mm_cases()):
        data = {tf_node(X_T(r.case.cplx, r.case.kron))}

        def go():
            vals = list(all_values(r))
            for name, t, where in vals:
                perm_ob(rep, tag, name, t, where, data, KDIMS if r.case.kron else None)
            # every sample is used
            for q in r.returns():
                t = to_T(result_values(q).get("cov") or result_values(q).get("A"))
                nodes = tf.walk_nodes(t)
                dep = any(x in data for x in nodes) or any(
                    to_T(v.next) is not None and any(y in data for y in tf.walk_nodes(to_T(v.next)))
                    for v in relevant(r.paths, None) if v.node in nodes)
                rep.ob("%s: the estimate depends on the data" % tag, dep, r.where)
        rep.guard(tag, go, r.where)
    from checks_c_struct import cost_values
    for name, t, where, data, dims in cost_values(rep):
        perm_ob(rep, name, "value", t, where, data, dims)
    return rep


# ------------------------------------------------------------------ C04
@check("C04")
def c04():
    rep = Report("C04", "Relational analysis: sample k is multiplied by its own factor d_k (positive for real data, any non-zero "
                 "complex number otherwise); every iterate, condition and result is unchanged.")
    for r, init, tag in runs(rep, [x for x in cases(norms=("None", "trace", "determinant", "element")) if x.est.startswith("tyler")] + mm_cases()):
        cs = r.case
        if not init and cs.est != "mm":
            continue
        Xt = X_T(cs.cplx, cs.kron)
        d = leafT("d", (n,), real=not cs.cplx, pos=not cs.cplx)
        k = Xt.n
        Xd = tf.contract([(d, [0]), (Xt, list(range(k)))], list(range(k)), Xt.sizes, Xt.dims, {})

        def cands(t):
            o = [IDENT]
            if t.n == 1 and t.dims[0] == n:
                dd = tf.mul_T(d, tf.conj_T(d))
                o.append(("scales with |d_k|^2", lambda x: tf.mul_T(x, dd)))
                o.append(("scales with |d_k|^-2", lambda x: tf.mul_T(x, tf.tpow(dd, R.const(-1)))))
            if t.n >= 2 and t.dims[0] == n:
                o.append(("row k scales with d_k", lambda x: tf.contract(
                    [(d, [0]), (x, list(range(x.n)))], list(range(x.n)), x.sizes, x.dims, {})))
            return o
        rel = Relation("amplitude", {tf_node(Xt): Xd}, cands, dims=KDIMS if cs.kron else None)
        wants = {k: IDENT for k in ("cov", "err", "it", "A", "B")}
        rep.guard(tag, lambda: rel.check(r, wants, rep, tag), r.where)
    return rep


# ------------------------------------------------------------------ C06
@check("C06")
def c06():
    rep = Report("C06", "Abstract interpretation with Hermitian / positive-semidefinite facts: the normal form of every returned "
                 "covariance is a sum of terms of the form M M^H with non-negative weights (loop states by induction).")
    cs = cases(norms=("None", "trace", "determinant", "element")) + emp_cases() + mm_cases()
    for r, init, tag in runs(rep, cs):
        def go():
            seen = set()
            if not r.returns():
                rep.ob(tag + ": a result", None, r.where, "no path returns")
            for q in r.returns():
                for k in ("cov", "A", "B"):
                    v = result_values(q).get(k)
                    if v is None:
                        continue
                    t = to_T(v)
                    if t.id in seen:
                        continue
                    seen.add(t.id)
                    psd_ob(rep, "%s: %s Hermitian positive semi-definite" % (tag, k), t, r.where,
                           KDIMS if r.case.kron else None)
        rep.guard(tag, go, r.where)
    for r, tag in natural(rep):
        for q in r.returns():
            t = to_T(result_values(q)["cov"])
            f = tf.flat(t)
            ok = tf.is_herm(f)
            how, det = "normal form", ""
            if not ok:
                ok, how, det = same(f, tf.herm_T(f))
            rep.ob("%s: Hermitian" % tag, ok, r.where, det, how)
    return rep


def psd_ob(rep, name, t, where, dims=None):
    f = tf.flat(t)
    if f.n == 2 and tf.is_herm(f) and tf.psd(f):
        rep.ob(name, True, where, tf.show(t, 1)[:160])
        return
    import numpy as np
    import numev
    ok, det = None, ""
    for k, s in enumerate((dims or numev.DIMS) * 3):
        pt = numev.Point(k, s)
        try:
            x = pt.T(f)
        except (numev.NoEval, np.linalg.LinAlgError) as e:
            det = str(e)
            continue
        m = x.reshape(int(round(np.sqrt(x.size))), -1)
        sc = np.max(np.abs(m), initial=1e-300)
        if np.max(np.abs(m - m.conj().T)) > 1e-8 * sc:
            rep.ob(name, False, where, "not Hermitian at %s" % pt.syms, "random interpretation")
            return
        w = np.linalg.eigvalsh((m + m.conj().T) / 2)
        if w[0] < -1e-8 * sc:
            rep.ob(name, False, where, "eigenvalue %.3g at %s" % (w[0], pt.syms), "random interpretation")
            return
        ok = True
    rep.ob(name, ok, where, det, "random interpretation")


def natural_cases(norms=("None", "trace", "determinant", "element")):
    out = []
    for cplx in (False, True):
        pre, Pre = ("complex_", "Complex") if cplx else ("", "")
        tag = "complex" if cplx else "real"
        for nm in norms:
            out.append(Case("tyler-natural-fn-%s-%s" % (tag, nm), COV, pre + "tyler_shape_matrix_naturalgradient", "fn", cplx,
                            params={"normalisation": nm}, est="natural", outs=("cov", "err", "it")))
            out.append(Case("tyler-natural-class-%s-%s" % (tag, nm), COV, Pre + "TylerShapeMatrix", "cls", cplx,
                            params={"normalisation": nm, "method": "natural gradient"}, est="natural"))
    return out


def natural(rep, inits=(False, True)):
    for r, init, tag in runs(rep, natural_cases(), inits):
        if not r.returns():
            rep.ob(tag + ": a result", None, r.where, "no path returns")
            continue
        yield r, tag


# ------------------------------------------------------------------ C07
@check("C07")
def c07():
    rep = Report("C07", "Normal-form evaluation of trace / determinant / first element of the returned shape matrix; with 'None' "
                 "the result is exactly the iterate of the loop (degree one in it).")

    def norm_ob(q, r, tag):
        nm = r.case.params["normalisation"]
        t = tf.flat(to_T(result_values(q)["cov"]))
        if nm == "None":
            return
        if nm == "trace":
            x = tf.fresh()
            got = tf.contract([(t, [x, x])], [], (), (), {x: t.dims[0]})
            want = tf.scalar(t.dims[0])
        elif nm == "determinant":
            got, want = tf.det_T(t), tf.scalar(1)
        else:
            z = ("c", R.const(0))
            got = tf.contract([(t, [z, z])], [], (), (), {})
            want = tf.scalar(1)
        ok, how, det = same(got, want)
        rep.ob("%s: %s" % (tag, nm), ok, r.where, det or tf.show(got)[:100], how)

    cs = [x for x in cases(norms=("None", "trace", "determinant", "element")) if x.est.startswith("tyler")]
    for r, init, tag in runs(rep, cs):
        def go():
            if not r.returns():
                rep.ob(tag + ": a result", None, r.where, "no path returns")
            for q in r.returns():
                norm_ob(q, r, tag)
                if r.case.est == "tyler":
                    t = to_T(result_values(q)["cov"])
                    S0 = to_T(q.interp.S) if init else default_start(r.case)
                    cand = [tyler_map(r.case.cplx, S0)]
                    for v in relevant(r.paths, {"cov"}):
                        if v.path is q:
                            cand += [to_T(v.next), v.phi.t]
                    ok = any(x is t for x in cand if x is not None)
                    how = "normal form"
                    if not ok:
                        ok, how, det = any_same(t, cand)
                    rep.ob("%s: the iterate is returned unscaled" % tag, ok, r.where, "", how)
        rep.guard(tag, go, r.where)
    for r, tag in natural(rep):
        def go():
            for q in r.returns():
                norm_ob(q, r, tag)
                if r.case.params["normalisation"] == "None":
                    sol = [e for e in q.events if e.kind == "solve"]
                    if len(sol) != 1:
                        rep.ob(tag + ": one solver call", None, r.where, "%d solver calls" % len(sol))
                        continue
                    xs = to_T(sol[0].result)
                    t = to_T(result_values(q)["cov"])
                    got = tf.Subst({tf_node(xs): tf.scale_T(xs, c)})(t)
                    ok, how, det = same(got, tf.scale_T(t, c))
                    rep.ob("%s: the solver's solution is returned unscaled" % tag, ok, r.where, det, how)
        rep.guard(tag, go, r.where)
    return rep


def any_same(t, cand):
    bad, det = None, ""
    for x in cand:
        if x is None or x.shape != t.shape:
            continue
        ok, how, det = same(t, x)
        if ok:
            return True, how, ""
        if ok is False:
            bad = False
    return bad, "random interpretation", det


# ------------------------------------------------------- reference maps
def maha(cplx, S, X=None):
    """x_k^H S^-1 x_k"""
    X = X or X_T(cplx)
    Si = tf.mpow(S, R.const(-1))
    i, j = tf.fresh(), tf.fresh()
    return tf.contract([(tf.conj_T(X), [0, i]), (Si, [i, j]), (X, [0, j])], [0], (1,), (n,), {i: p, j: p})


def second_moment(cplx, w=None, X=None):
    """sum_k w_k x_k x_k^H"""
    X = X or X_T(cplx)
    k = tf.fresh()
    parts = [(X, [k, 0]), (tf.conj_T(X), [k, 1])]
    if w is not None:
        parts.append((w, [k]))
    return tf.contract(parts, [0, 1], (1, 1), (p, p), {k: n})


def default_start(case):
    return tf.scale_T(second_moment(case.cplx), R.inv(n))


def tyler_map(cplx, S):
    w = tf.tpow(maha(cplx, S), R.const(-1))
    return tf.scale_T(second_moment(cplx, w), R.div(p, n))


def student_map(cplx, S):
    df = R.sym("df")
    q = maha(cplx, S)
    if cplx:
        q = tf.scale_T(q, R.const(2))
    pp = R.mul(R.const(2 if cplx else 1), p)
    den = tf.add_T(tf.const_T((n,), df), q)
    w = tf.scale_T(tf.tpow(den, R.const(-1)), R.add(df, pp))
    return tf.scale_T(second_moment(cplx, w), R.inv(n))


def huber_consts(cplx):
    q = tf.scalar(QQ)
    two = R.const(2)
    pp = R.mul(two, p) if cplx else p
    chi = tf.fn("chi2.ppf", [q, tf.scalar(pp)])
    lam = tf.scale_T(chi, R.inv(two)) if cplx else chi
    x = tf.scale_T(lam, two) if cplx else lam
    cdf = tf.fn("chi2.cdf", [x, tf.scalar(R.add(pp, two))])
    beta = tf.add_T(cdf, tf.scale_T(lam, R.div(R.sub(I1, QQ), p)))
    return lam, beta


def huber_map(cplx, S):
    lam, beta = huber_consts(cplx)
    q = maha(cplx, S)
    lam1 = tf.lift_scalar(lam, q)
    w = tf.fn("minimum", [tf.const_T((n,), I1), tf.mul_T(lam1, tf.tpow(q, R.const(-1)))])
    t = second_moment(cplx, w)
    return tf.scale_T(tf.mul_T(t, tf.lift_scalar(tf.tpow(beta, R.const(-1)), t)), R.inv(n))


def iteration_obs(rep, r, init, tag, ref):
    """the estimate iterates the reference map from the start given"""
    S0 = to_T(r.paths[0].interp.S) if init else default_start(r.case)
    first = ref(r.case.cplx, S0)
    mats = [v for v in relevant(r.paths, {"cov"}) if v.phi.t.n == 2 and v.phi.t.dims[0] == p]
    nodes = {v.node for v in mats}
    memo = {}

    early = [first]     # what the first iterations give, when they are not part of the summary

    def is_iterate(t, q, what):
        """t is the map applied to the start or to the loop's current estimate, or that estimate"""
        if t is first:
            return True, "normal form", ""
        ph = [x for x in phis_in(t) if x in nodes]
        cand = []
        if not ph:
            while len(early) < 1 + max([x.rec.peeled or 0 for x in mats], default=0):
                early.append(ref(r.case.cplx, early[-1]))
            cand = list(early)
        for x in ph:
            y = memo.get(x)
            if y is None:
                y = memo[x] = ref(r.case.cplx, tf.from_node(x))
            if t is y or t is tf.from_node(x):
                return True, "normal form", ""
            cand += [y, tf.from_node(x)]
        return any_same(t, cand)
    if not r.returns():
        rep.ob(tag + ": a result", None, r.where, "no path returns")
    seen = set()
    used = set()
    for q in r.returns():
        t = to_T(result_values(q)["cov"])
        if t.id in seen:
            continue
        seen.add(t.id)
        used |= phis_in(t) & nodes
        ok, how, det = is_iterate(t, q, "result")
        rep.ob("%s: the estimate is the image of the previous iterate" % tag, ok, r.where, det or tf.show(t, 1)[:200], how)
    for v in mats:
        # variables that carry an estimate: those the result or the map reads
        for what in ("init", "next"):
            t = to_T(getattr(v, what))
            if t is None or (what, t.id, v.node) in seen:
                continue
            seen.add((what, t.id, v.node))
            ok, how, det = is_iterate(t, v.path, what)
            if what == "init" and not ok and t is S0:
                ok, how, det = True, "normal form", ""
            if v.node not in used:
                continue
            rep.ob("%s: loop variable %s %s is an iterate of the map" % (tag, v.key, what), ok, v.rec.where(), det, how)


def map_check(pid, est, ref, expl):
    def f():
        rep = Report(pid, expl)
        for r, init, tag in runs(rep, [x for x in cases() if x.est == est]):
            rep.guard(tag, lambda: iteration_obs(rep, r, init, tag, ref), r.where)
        return rep
    CHECKS[pid] = f


map_check("C09", "student", student_map, "Value numbering: the normal form of one iteration (first and generic, through function "
          "and class) equals that of the t maximum-likelihood map for the user's df.")
map_check("C10", "huber", huber_map, "Value numbering: the normal form of one iteration equals the Huber map with the Gaussian-"
          "consistent threshold and scale for the user's q.")
map_check("C12", "tyler", tyler_map, "Value numbering: the normal form of one iteration equals Tyler's map, from the given or "
          "second-moment start.")


# ------------------------------------------------------------------ C05
@check("C05")
def c05():
    from growth import Growth, numeric
    import numev
    rep = Report("C05", "Asymptotic growth analysis: one sample is multiplied by c -> infinity; the order in c of every "
                 "iterate (first and generic) is bounded by summing the orders of the factors of its normal form.")
    for r, init, tag in runs(rep, cases() + mm_cases()):
        cs = r.case
        if not init and cs.est != "mm":
            continue
        data = [tf_node(X_T(cs.cplx, cs.kron))]
        g = Growth(data, n)

        def go():
            vals = {}
            for q in r.returns():
                for k in ("cov", "A", "B"):
                    v = result_values(q).get(k)
                    if v is not None:
                        vals.setdefault(to_T(v).id, ("the returned " + k, to_T(v), r.where))
            for v in relevant(r.paths, {"cov", "A", "B"}):
                t = to_T(v.next)
                if t is not None and t.rank > 0:
                    vals.setdefault(t.id, ("loop variable %s" % v.key, t, v.rec.where()))
            if not vals:
                rep.ob(tag + ": an iterate", None, r.where, "no path returns")
            for nm, t, where in vals.values():
                lo, hi = g.degree(t)
                if hi <= 1e-9:
                    rep.ob("%s: %s bounded in the amplitude of one sample" % (tag, nm), True, where, "order %g" % hi)
                    continue
                e, det = numeric(t, data, KDIMS if cs.kron else numev.DIMS)
                ok = None if e is None else e < 0.02
                rep.ob("%s: %s bounded in the amplitude of one sample" % (tag, nm), ok, where, det, "random interpretation")
        rep.guard(tag, go, r.where)
    return rep


# ------------------------------------------------------------------ C08
def scal(r):
    return tf.scalar(r)


def frob2(t):
    f = tf.flat(t)
    i, j = tf.fresh(), tf.fresh()
    return tf.contract([(f, [i, j]), (tf.conj_T(f), [i, j])], [], (), (), {i: f.dims[0], j: f.dims[1]})


def rel_change(new, old):
    d = tf.add_T(tf.flat(new), tf.scale_T(tf.flat(old), R.const(-1)))
    return tf.tpow(tf.mul_T(frob2(d), tf.tpow(frob2(old), R.const(-1))), HALF)


ITMAX = R.sym("itmax")


def as_rat(t):
    """the rational function of the symbols a scalar form is, or None"""
    if t is None or t.n:
        return None
    if t.is_zero():
        return R.const(0)
    if len(t.terms) == 1 and t.terms[0][0] == (0, ()):
        return t.terms[0][1]
    return None


def int_ge(d, conds):
    """d >= 0 for an integer-valued expression, from the path's conditions"""
    if nonneg_int(d):
        return True
    for cd in conds:
        if not hasattr(cd.t, "terms"):
            continue
        f = as_rat(cd.t)
        if f is None:
            continue
        if not cd.val and cd.kind == "eq0":
            # d /= 0 together with d >= 0 at every earlier test: a counter that moves by one
            facts = [R.sub(f, I1), R.sub(R.neg(f), I1)] if "itmax" in R.symbols(f) else []
        elif cd.kind == "gt0":
            facts = [R.sub(f, I1)] if cd.val else [R.neg(f)]
        elif cd.kind == "ge0":
            facts = [f] if cd.val else [R.sub(R.neg(f), I1)]
        elif cd.kind == "eq0":
            facts = [f, R.neg(f)]
        else:
            continue
        if any(nonneg_int(R.sub(d, x)) for x in facts):
            return True
    return False


def nonneg_int(d):
    k = d.const()
    if k is not None:
        return k >= 0
    return R.nonneg(R.subst(d, tf.int_shift(d)), tf.is_pos_sym)


def decides(cd, err, dims):
    """the condition is: err > tol"""
    import numpy as np
    import numev
    if cd.kind not in ("gt0", "ge0") or "tol" not in tf.show(cd.t, 3):
        return False
    seen = 0
    sg = set()
    for k, s in enumerate((dims or numev.DIMS) * 6):
        if seen == 4:
            break
        try:
            e = complex(numev.Point(k, s).T(err).reshape(-1)[0])
            if e.real <= 0:
                continue                 # a relative change is not negative
            e = abs(e)
            row = []
            for m in (0.8, 0.99, 1.01, 1.3):
                v = numev.Point(k, dict(s, tol=e * m)).T(cd.t)
                row.append(v.reshape(-1)[0].real > 0)
        except (numev.NoEval, np.linalg.LinAlgError):
            continue
        if row not in ([True, True, False, False], [False, False, True, True]):
            return False
        seen += 1
        sg.add(row[0])
    if not seen or len(sg) != 1:
        return False
    return "above" if sg.pop() == cd.val else "below"


@check("C08")
def c08():
    rep = Report("C08", "Loop contract by induction: update counter, budget, reported error and exit conditions are read off the "
                 "summarised loop on every exit path.")
    cs = cases() + mm_cases()
    for r, init, tag in runs(rep, cs):
        rep.guard(tag, lambda: loop_contract(rep, r, init, tag), r.where)
    for r, tag in natural(rep, (False,)):
        pass
    return rep


def same_where(x, y, conds, dims, points=4):
    """x equals y at the sample points at which the conditions on unknown data hold; None when too few points do"""
    import numpy as np
    import numev
    cs = [c for c in conds if c.kind in ("gt0", "ge0") and hasattr(c.t, "terms") and c.t.n == 0 and as_rat(c.t) is None]
    if len(cs) > 1:
        # each implies the equality on this path if it does so by itself
        return True if any(same_where(x, y, [c], dims, points) for c in cs) else None
    seen = 0
    for k in range(80 if cs else 0):
        pt = numev.Point(k, (dims or numev.DIMS)[k % len(dims or numev.DIMS)])
        try:
            with np.errstate(all="ignore"):
                if any((pt.T(c.t).reshape(-1)[0].real > 0) != c.val for c in cs):
                    continue
                u, v = pt.T(x).reshape(-1), pt.T(y).reshape(-1)
        except (numev.NoEval, np.linalg.LinAlgError, ZeroDivisionError, OverflowError):
            continue
        if not (np.all(np.isfinite(u)) and np.all(np.isfinite(v))):
            continue
        if np.max(np.abs(u - v)) > 1e-7 * max(np.max(np.abs(u)), np.max(np.abs(v))):
            return False
        seen += 1
        if seen == points:
            return True
    return None


def mats_of(cs, res):
    ks = ("A", "B") if cs.est == "mm" else ("cov",)
    return [to_T(res.get(k)) for k in ks]


def loop_contract(rep, r, init, tag):
    cs = r.case
    dims = KDIMS if cs.kron else None
    if not r.returns():
        rep.ob(tag + ": a result", None, r.where, "no path returns")
        return
    if cs.est == "mm":
        starts = [tf.from_node(tf.delta_node(d)) for d in (a, b)]
    else:
        starts = [to_T(r.paths[0].interp.S) if init else default_start(cs)]
    need_err = not (cs.kind == "cls" and cs.est == "mm")
    memo = {}

    def change(news, olds):
        w = [rel_change(x, y) for x, y in zip(news, olds)]
        return w[0] if len(w) == 1 else tf.fn("maximum", w)

    def err_is(e, news, olds, conds=()):
        r = err_is0(e, news, olds)
        if r[0] is False and len(news) > 1 and all(x.shape == y.shape for x, y in zip(news, olds)):
            # one of several changes, chosen by a comparison: decided where the path's conditions hold
            w = same_where(e, change(news, olds), conds, dims)
            if w:
                return True, "random interpretation", ""
        return r

    def err_is0(e, news, olds):
        key = (e.id, tuple(x.id for x in news), tuple(x.id for x in olds))
        if key not in memo:
            if any(x.shape != y.shape for x, y in zip(news, olds)):
                memo[key] = (False, "shape", "")
            else:
                memo[key] = same(e, change(news, olds), dims=dims)
        return memo[key]

    for num, q in enumerate(r.returns()):
        res = result_values(q)
        news = mats_of(cs, res)
        if any(x is None for x in news):
            rep.ob(tag + ": an estimate", None, r.where, "no array is returned")
            continue
        ph = set()
        for x in news:
            ph |= {y for y in phis_in(x) if len(y.dims) == 2 and y.dims[0] == y.dims[1] and y.dims[0] != n}
        rec = None
        for l in q.loops:
            if l.mode in ("while", "seq") and any(phi_of(x) in ph for x in l.phi.values()):
                rec = l
        if rec is None:
            zs = [l for l in q.loops if l.mode == "zero"]
            rec = zs[0] if zs else None
        if rec is None:
            rep.ob(tag + ": the loop", None, r.where, "no loop reaches this result")
            continue
        isphi = all(len(tf.walk_nodes(x)) == 1 and next(iter(tf.walk_nodes(x))) in ph for x in news)
        where = rec.where()
        # ---- number of updates
        from interp import UNDEF as U_
        lab = None
        if rec.mode == "zero":
            U = R.const(0 if rec.n is not None or all(x is y for x, y in zip(news, starts)) else rec.peeled)
            if rec.heads and rec.peeled == len(rec.heads) and all(any(tf.flat(x) is tf.flat(y) for y in rec.heads[-1]) for x in news):
                U = R.const(rec.peeled - 1)      # left before the update of this iteration
        elif rec.mode == "while":
            U = R.add(R.const(rec.peeled), rec.count)
            if not isphi:
                U = R.add(U, I1)
        elif rec.exit == "last":
            U = rec.n
        else:
            U = None
            lab = rec.label
        it = to_T(res.get("it"))
        if need_err or it is not None:
            if it is None:
                rep.ob(tag + ": an iteration count is reported", False, r.where, repr(res.get("it"))[:80])
            elif U is not None:
                ok, how, det = same(it, scal(U), dims=dims)
                rep.ob("%s: iteration count is the number of updates" % tag, ok, where,
                       det or "%s updates" % U, how)
            else:
                want = tf.add_T(q.interp.npm.iota(rec.n, lab), scal(R.const(0 if isphi else 1)))
                ok, how, det = same(it, want, dims=dims)
                rep.ob("%s: iteration count is the number of updates" % tag, ok, where, det, how)
        # ---- budget
        if U is not None:
            ok = int_ge(R.sub(ITMAX, U), q.conds)
            last = int_ge(R.sub(U, ITMAX), q.conds)
        else:
            ok = nonneg_int(R.sub(ITMAX, rec.n))
            last = False
        rep.ob("%s: at most iter_max updates" % tag, ok, where,
               "%s updates; %s" % (U if U is not None else "i+1", [c for c in q.conds if as_rat(getattr(c, "t", None)) is not None][:4]
                                   if not ok else ""))
        # ---- error
        e = to_T(res.get("err"))
        if e is None and need_err:
            rep.ob(tag + ": an error is reported", False, r.where, repr(res.get("err"))[:80])
            continue
        if U is not None and U.const() == 0:
            continue                     # iter_max < 1
        unpub = e is None
        en = phi_only(e) if e is not None else None
        if en is not None and isphi:
            # the state at the loop head: by induction over the loop variables
            ok = True
            for v in loop_vars(r.paths):
                if v.node is not en or v.rec.exit == "break":
                    continue             # only what reaches the loop head again
                sib = {phi_of(x): k for k, x in v.rec.phi.items()}
                ks = [sib.get(next(iter(tf.walk_nodes(x)))) for x in news]
                if None in ks:
                    ok, det = None, "other loop"
                    break
                nx = [to_T(v.rec.next.get(k)) for k in ks]
                ini = [to_T(v.rec.init.get(k)) for k in ks]
                if to_T(v.next) is not None and None not in nx:
                    o, how, det = err_is(to_T(v.next), nx, news, v.path.conds)
                    if not o:
                        ok = o
                if to_T(v.init) is not None and None not in ini:
                    o, how, det = err_is(to_T(v.init), ini, starts)
                    if not o and len(v.rec.heads) > 1 and len(news) == 1:
                        for y in v.rec.heads[v.rec.peeled - 1]:
                            if y.shape == ini[0].shape and err_is(to_T(v.init), ini, [y])[0]:
                                o = True
                    if not o:
                        ok = o
            rep.ob("%s: reported error is the last relative change" % tag, ok, where)
        else:
            olds = [starts]
            last_head = rec.heads[int(U.const()) - 1] if rec.heads and U is not None and U.const() is not None else rec.heads[-1] if rec.heads else []
            cand = [[y for y in last_head if y.shape == tf.flat(x).shape] for x in news]
            if all(cand) and all(len(c) < 5 for c in cand):
                import itertools
                olds += [list(x) for x in itertools.product(*cand)]
            if rec.mode in ("while", "seq"):
                cand = []
                for x in news:
                    cand.append([tf.from_node(y) for y in ph if tf.from_node(y).shape == tf.flat(x).shape
                                 and any(phi_of(z) is y for z in rec.phi.values())])
                import itertools
                olds = [list(x) for x in itertools.product(*cand)]
            ok, how, det = None, "", "no previous iterate found"
            if unpub:
                # not published by this class: the decision to stop is still compared with it
                if not olds:
                    rep.ob(tag + ": previous iterate", None, where)
                    continue
                e = change(news, olds[0])
                olds = olds[:1]
            for o in olds:
                ok, how, det = err_is(e, news, o, q.conds)
                if ok:
                    break
            rep.ob("%s: reported error is the last relative change" % tag, ok, where, det, how)
        # ---- stopping
        dec = {decides(cd, e, dims) for cd in q.conds if hasattr(cd.t, "terms") and cd.t.n == 0}
        below = "below" in dec
        rep.ob("%s: stops before iter_max only when the error is at most tol" % tag, below or last, where,
               "" if below or last else "conditions: %s" % [str(c)[:120] for c in q.conds[-3:]])
        if not below:
            logs = [x for x in q.events if x.kind == "log" or x.kind == "warn"]
            rep.ob("%s: a message is logged when the error is above tol" % tag, bool(logs), where,
                   logs[0].msg[:60] if logs and getattr(logs[0], "msg", None) else "")


def phi_of(v):
    from relate import phi_node
    return phi_node(v)


def phi_only(t):
    nodes = tf.walk_nodes(t)
    if len(nodes) == 1:
        nd = next(iter(nodes))
        if nd.kind == "leaf" and nd.args[0].startswith("phi") and tf.from_node(nd) is t:
            return nd
    return None
