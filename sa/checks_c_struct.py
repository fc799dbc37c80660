"""C11, C13, S01-S03: costs, empirical covariance, Kronecker-structured estimators."""
import rat as R
import tf
from world import *
from chk import Report, same
from checks_c_estim import (runs, tf_node, KDIMS, kronT, maha, second_moment, any_same, check as _c, default_start)  # noqa
from relate import to_T, result_values, relevant

CHECKS = {}


def check(pid):
    def d(f):
        CHECKS[pid] = f
        return f
    return d


def anchor(prog, mod, name):
    import ast
    src = prog.src(mod)
    for nd in ast.walk(src.tree):
        if isinstance(nd, (ast.FunctionDef, ast.ClassDef)) and nd.name == name:
            return "%s:%s:%d" % (mod.replace(".", "/") + ".py", name, nd.lineno)
    return "%s:%s" % (mod.replace(".", "/") + ".py", name)


def call(prog, mod, name, *args, **kw):
    """interpret mod.name(*args, **kw); callables among the arguments build their value from the interpreter"""
    def build(it):
        a = [x(it) if callable(x) else x for x in args]
        k = {q: (x(it) if callable(x) else x) for q, x in kw.items()}
        f = it.get(mod, name)
        it.args = a
        return it.call(f, a, k)
    return explore(prog, build)


def returned(paths):
    return [q for q in paths if q.outcome == "return"]


# ------------------------------------------------------------------ C11
def tyler_nll(cplx, Q):
    q = maha(cplx, Q)
    k = tf.fresh()
    s = tf.contract([(tf.fn("log", [q]), [k])], [], (), (), {k: n})
    return tf.add_T(tf.scale_T(s, p), tf.scale_T(tf.fn("log", [tf.det_T(Q)]), n))


def tyler_costs(prog):
    """(name, cplx, paths, where) of every form of the Tyler cost"""
    for cplx, nm in ((False, "Tyler_cost_real"), (True, "Tyler_cost_complex")):
        for auto in (False, True):
            x = lambda it: arr(it, X_T(cplx), cplx)
            s = lambda it: arr(it, S_T(cplx), cplx)
            yield "%s(autograd=%s)" % (nm, auto), cplx, lambda: call(prog, COST, nm, x, s, autograd=auto), anchor(prog, COST, nm)
    for cplx, nm in ((False, "_generate_realTyler_cost_function"), (True, "_generate_complexTyler_cost_function")):
        def go(cplx=cplx, nm=nm):
            def build(it):
                f = it.call(it.get(COV, nm), [arr(it, X_T(cplx), cplx)], {})
                return it.call(f, [arr(it, S_T(cplx), cplx)], {})
            return explore(prog, build)
        yield nm, cplx, go, anchor(prog, COV, nm)


@check("C11")
def c11():
    rep = Report("C11", "Each cost is interpreted on generic X (n x p) and HPD Q; the value is compared with the negative "
                 "log-likelihood as a normal form, also after Q -> cQ, x_k -> d_k x_k and a change of basis; every path with "
                 "mismatching dimensions raises.")
    prog = Program()
    rep.progs.append(prog)
    for name, cplx, run, where in tyler_costs(prog):
        def go():
            rets = returned(run())
            if not rets:
                rep.ob(name + ": a result", None, where, "no path returns")
            for q in rets:
                t = to_T(q.result)
                if t.n:
                    rep.ob(name + ": scalar", False, where, "shape %s" % (t.shape,))
                    continue
                S = S_T(cplx)
                ok, how, det = same(t, tyler_nll(cplx, S))
                rep.ob(name + ": equals p sum log q_k + n log det Q", ok, where, det, how)
                sub = tf.Subst({tf_node(S): tf.scale_T(S, c)}, {})
                ok, how, det = same(sub(t), t)
                rep.ob(name + ": unchanged by Q -> cQ", ok, where, det, how)
                d = leafT("d", (n,), real=not cplx, pos=not cplx)
                Xd = tf.contract([(d, [0]), (X_T(cplx), [0, 1])], [0, 1], X_T(cplx).sizes, (n, p), {})
                sd = tf.Subst({tf_node(X_T(cplx)): Xd}, {})
                k = tf.fresh()
                sh = tf.scale_T(tf.contract([(tf.fn("log", [tf.mul_T(d, tf.conj_T(d))]), [k])], [], (), (), {k: n}), p)
                ok, how, det = same(sd(t), tf.add_T(t, sh))
                rep.ob(name + ": shifts by a constant of Q when samples are rescaled", ok, where, det, how)
        rep.guard(name, go, where)
    for cplx, nm in ((False, "Tyler_cost_real"), (True, "Tyler_cost_complex")):
        where = anchor(prog, COST, nm)
        for auto in (False, True):
            for what, sh in (("larger", R.add(p, I1)), ("unrelated", m)):
                def go2():
                    qs = call(prog, COST, nm, lambda it: arr(it, X_T(cplx), cplx),
                              lambda it: arr(it, leafT("Q", (sh, sh), real=not cplx, herm=True, psd=True, inv=True), cplx),
                              autograd=auto)
                    bad = [q for q in qs if q.outcome == "return" and not equal_cond(q, sh)]
                    good = [q for q in qs if q.outcome == "raise"]
                    rep.ob("%s(autograd=%s): refuses a %s Q" % (nm, auto, what), bool(good) and not bad, where,
                           "%d paths return" % len(bad))
                rep.guard("%s mismatch" % nm, go2, where)
    return rep


def equal_cond(q, sh):
    """the path assumed that the two dimensions are equal"""
    d = R.sub(sh, p)
    for cd in q.conds:
        if cd.kind == "eq0" and cd.val:
            t = cd.t
            r = t if not hasattr(t, "terms") else None
            if hasattr(t, "terms"):
                from checks_c_estim import as_rat
                r = as_rat(t)
            if r is not None and (r == d or r == R.neg(d)):
                return True
    return False


def cost_values(rep):
    prog = Program()
    rep.progs.append(prog)
    for name, cplx, run, where in tyler_costs(prog):
        qs = rep.guard(name, lambda: returned(run()), where) or []
        for q in qs:
            yield name, to_T(q.result), where, {tf_node(X_T(cplx))}, None
    for centred in (True, False):
        qs = rep.guard("Kronecker Student cost", lambda: returned(student_problem(prog, centred))) or []
        w = anchor(prog, STR, "_generate_cost_function_kronecker_student")
        for q in qs:
            g = q.result["g"]
            for k, t in [("cost", q.result["cost"])] + [("gradient", x) for x in (g if isinstance(g, (list, tuple)) else ())]:
                yield "Kronecker Student %s" % k, to_T(t), w, {tf_node(X_T(True, True))}, KDIMS


# ------------------------------------------------------------------ C13
def mean_T(X, rows=n):
    k = tf.fresh()
    return tf.scale_T(tf.contract([(X, [k, 0])], [0], X.sizes[1:], X.dims[1:], {k: rows}), R.inv(rows))


@check("C13")
def c13():
    rep = Report("C13", "The empirical covariance of generic complex data is compared with the Hermitian second moment as a "
                 "normal form, in both centring modes; the location and the treatment of one vector likewise.")
    X = X_T(True)
    mu = mean_T(X)
    Xc = tf.add_T(X, tf.scale_T(bcast(mu, n), R.const(-1)))
    for r, init, tag in runs(rep, [x for x in emp_cases() if x.cplx], (False,)):
        def go():
            if not r.returns():
                rep.ob(tag + ": a result", None, r.where, "no path returns")
            for q in r.returns():
                v = result_values(q)
                cent = r.case.params["assume_centered"]
                ref = tf.scale_T(second_moment(True, X=X if cent else Xc), R.inv(n))
                ok, how, det = same(to_T(v["cov"]), ref)
                rep.ob(tag + ": (1/N) sum x x^H", ok, r.where, det, how)
                if r.case.kind == "cls":
                    loc = to_T(v.get("loc"))
                    if loc is None:
                        rep.ob(tag + ": location_ set", False, r.where, "no location_")
                    else:
                        want = tf.scale_T(mu, 0) if cent else mu
                        ok, how, det = same(loc, want)
                        rep.ob(tag + ": location_", ok, r.where, det, how)
        rep.guard(tag, go, r.where)
    prog = Program()
    rep.progs.append(prog)
    x1 = leafT("x", (p,))
    where = anchor(prog, BASE, "complex_empirical_covariance")

    def one():
        qs = call(prog, BASE, "complex_empirical_covariance", lambda it: arr(it, x1, True), assume_centered=True)
        rets = returned(qs)
        rep.ob("one vector: a result", bool(rets), where)
        ref = tf.contract([(x1, [0]), (tf.conj_T(x1), [1])], [0, 1], (1, 1), (p, p), {})
        for q in rets:
            ok, how, det = same(to_T(q.result), ref)
            rep.ob("one vector is one row", ok, where, det, how)
    rep.guard("one vector", one, where)
    return rep


def bcast(t, rows):
    """repeat a vector as the rows of a matrix"""
    o = tf.fresh()
    return tf.contract([(t, [1])], [0, 1], (1,) + tuple(t.sizes), (rows,) + tuple(t.dims), {})


# ------------------------------------------------------------------ S01
def kron_moments(A, B, X, iA=None, iB=None):
    """numerators of the two second moments and the quadratic form of sample k (labels: k first)"""
    Ai = iA or tf.mpow(A, R.const(-1))
    Bi = iB or tf.mpow(B, R.const(-1))
    s, t, i, j = [tf.fresh() for _ in range(4)]
    MA = tf.contract([(X, [0, 1, s]), (tf.conj_T(X), [0, 2, t]), (Bi, [t, s])], [0, 1, 2], (1, 1, 1), (n, a, a), {s: b, t: b})
    MB = tf.contract([(X, [0, i, 1]), (tf.conj_T(X), [0, j, 2]), (Ai, [j, i])], [0, 1, 2], (1, 1, 1), (n, b, b), {i: a, j: a})
    q = tf.contract([(X, [0, i, s]), (tf.conj_T(X), [0, j, t]), (Bi, [t, s]), (Ai, [j, i])], [0], (1,), (n,),
                    {i: a, j: a, s: b, t: b})
    return MA, MB, q


def ksum(w, M, d):
    k = tf.fresh()
    return tf.contract([(w, [k]), (M, [k, 0, 1])], [0, 1], (1, 1), (d, d), {k: n})


def gmean(A, M):
    h, ih = tf.mpow(A, HALF), tf.mpow(A, R.neg(HALF))
    return tf.matmul_T(tf.matmul_T(h, tf.mpow(tf.matmul_T(tf.matmul_T(ih, M), ih), HALF)), h)


def mm_A(A, B, X):
    MA, MB, q = kron_moments(A, B, X)
    return gmean(A, tf.scale_T(ksum(tf.tpow(q, R.const(-1)), MA, a), R.div(a, n)))


def mm_B(A, B, X):
    """update of B from the (new) A and the old B"""
    MA, MB, q = kron_moments(A, B, X)
    return gmean(B, tf.scale_T(ksum(tf.tpow(q, R.const(-1)), MB, b), R.div(b, n)))


@check("S01")
def s01():
    rep = Report("S01", "The generic Kronecker MM iteration is interpreted; its back edge is compared, as a normal form, with the "
                 "majorisation-minimisation step for covariance kron(A, B); auxiliary loop variables are eliminated by induction.")
    X = X_T(True, True)
    for r, init, tag in runs(rep, mm_cases(), (False,)):
        def go():
            eA = lambda t: t.n == 2 and t.dims[0] == a and t.dims[1] == a
            eB = lambda t: t.n == 2 and t.dims[0] == b and t.dims[1] == b
            rets = r.returns()
            if not rets:
                rep.ob(tag + ": a result", None, r.where, "no path returns")
            rv = relevant(r.paths, {"A", "B", "cov"})
            seen, checked = set(), set()
            isA, isB = set(), set()
            for q in rets:
                v = result_values(q)
                A, B = to_T(v.get("A")), to_T(v.get("B"))
                if A is None or B is None:
                    rep.ob(tag + ": factors published", False, r.where)
                    continue
                for nm, t, e in (("A", A, eA), ("B", B, eB)):
                    if not e(t):
                        rep.ob("%s: %s has its own size" % (tag, nm), False, r.where, "shape %s" % (t.shape,))
                        return
                for nm, t in (("A", A), ("B", B)):
                    if t.id not in checked:
                        checked.add(t.id)
                        cand = [x for v in rv if v.phi.t.shape == t.shape for x in (v.phi.t, to_T(v.next), to_T(v.init)) if x is not None]
                        ok, how, det = any_same_d(t, [x for x in cand if x is t] or cand)
                        rep.ob("%s: the returned %s is an iterate" % (tag, nm), ok, r.where, det, how)
                isA |= {x for x in ests(A) if eA(tf.from_node(x))}
                isB |= {x for x in ests(B) if eB(tf.from_node(x))}
                if "cov" in v:
                    C = to_T(v["cov"])
                    ok, how, det = same(C, kronT(A, B), dims=KDIMS)
                    rep.ob("%s: covariance_ is kron(A_, B_)" % tag, ok, r.where, det, how)
            # estimates carried by the loops, and auxiliary variables proved to be functions of them
            byrec = {}
            for v in rv:
                byrec.setdefault((id(v.path), id(v.rec)), []).append(v)
            for (pid, rid), vs in byrec.items():
                PA = [v for v in vs if v.node in isA]
                PB = [v for v in vs if v.node in isB]
                if not PA or not PB:
                    continue
                where = vs[0].rec.where()
                vA, vB = PA[0], PB[0]
                key = (to_T(vA.next).id, to_T(vB.next).id)
                if key in seen:
                    continue
                seen.add(key)
                fA, fB = vA.phi.t, vB.phi.t
                forms = [(lambda t: t), (lambda t: tf.mpow(t, R.const(-1))), (lambda t: tf.mpow(t, HALF)),
                         (lambda t: tf.mpow(t, R.neg(HALF)))]
                sub = {}
                for v in vs:
                    if v.node in (vA.node, vB.node) or to_T(v.next) is None or to_T(v.init) is None:
                        continue
                    base = vA if eA(v.phi.t) else vB if eB(v.phi.t) else None
                    if base is None:
                        continue
                    for f in forms:
                        s1 = tf.Subst({**sub, v.node: f(base.phi.t)}, {})
                        if herm_eq(to_T(v.init), f(to_T(base.init))) and \
                                herm_eq(s1(to_T(v.next)), f(s1(to_T(base.next)))):
                            sub[v.node] = f(base.phi.t)
                            break
                S1 = compose(sub, {vA.node: hpd("A", a), vB.node: hpd("B", b)})
                nA, nB = S1(to_T(vA.next)), S1(to_T(vB.next))
                A0, B0 = hpd("A", a), hpd("B", b)
                rA = mm_A(A0, B0, X)
                okA, how, det = same(nA, rA, dims=KDIMS)
                if okA:
                    okB, how2, det2 = any_same_d(nB, [mm_B(nA, B0, X), mm_B(A0, B0, X)])
                else:
                    rB = mm_B(A0, B0, X)
                    o2, h2, d2 = same(nB, rB, dims=KDIMS)
                    if o2:
                        okB, how2, det2 = o2, h2, d2
                        okA, how, det = any_same_d(nA, [mm_A(A0, nB, X)])
                    else:
                        okB, how2, det2 = any_same_d(nB, [mm_B(nA, B0, X), mm_B(A0, B0, X)])
                rep.ob("%s: step of A is the geometric mean of A and its weighted second moment" % tag, okA, where, det, how)
                rep.ob("%s: step of B is the geometric mean of B and its weighted second moment" % tag, okB, where, det2, how2)
            rep.ob(tag + ": a step was compared", bool(seen) or None, r.where)
        rep.guard(tag, go, r.where)
    return rep


def hpd(name, d):
    return leafT(name, (d, d), herm=True, psd=True, inv=True)


def ests(t):
    from relate import phis_in
    return phis_in(t)


def herm_eq(x, y):
    return x is y


def compose(first, second):
    s1, s2 = tf.Subst(first, {}), tf.Subst(second, {})
    return lambda t: s2(s1(t))


def any_same_d(t, cand):
    best = (None, "", "")
    for x in cand:
        r = same(t, x, dims=KDIMS)
        if r[0]:
            return r
        if best[0] is None:
            best = r
    return best


# ------------------------------------------------------------------ S02
def t_nll(A, B, X, df):
    """minus the complex t log-likelihood of the rows of X, up to a constant of A and B"""
    _, _, q = kron_moments(A, B, X)
    d2 = R.mul(R.const(2), R.mul(a, b))
    k = tf.fresh()
    lg = tf.fn("log", [tf.add_T(tf.const_T((n,), 1), tf.scale_T(q, R.div(R.const(2), df)))])
    s = tf.scale_T(tf.contract([(lg, [k])], [], (), (), {k: n}), R.mul(HALF, R.add(df, d2)))
    ld = tf.add_T(tf.scale_T(tf.fn("log", [tf.det_T(A)]), R.mul(n, b)), tf.scale_T(tf.fn("log", [tf.det_T(B)]), R.mul(n, a)))
    return tf.add_T(s, ld)


def t_grad(A, B, X, df):
    MA, MB, q = kron_moments(A, B, X)
    d2 = R.mul(R.const(2), R.mul(a, b))
    w = tf.tpow(tf.add_T(tf.const_T((n,), 1), tf.scale_T(q, R.div(R.const(2), df))), R.const(-1))
    w = tf.scale_T(w, R.neg(R.div(R.add(df, d2), df)))
    iA, iB = tf.mpow(A, R.const(-1)), tf.mpow(B, R.const(-1))
    sw = lambda i, M: tf.matmul_T(tf.matmul_T(i, M), i)
    gA = tf.add_T(tf.scale_T(iA, R.mul(n, b)), sw(iA, ksum(w, MA, a)))
    gB = tf.add_T(tf.scale_T(iB, R.mul(n, a)), sw(iB, ksum(w, MB, b)))
    return gA, gB


def student_problem(prog, centred, how="class"):
    def build(it):
        X = arr(it, X_T(True, True), True)
        it.X = X
        A, B = arr(it, hpd("A", a), True), arr(it, hpd("B", b), True)
        cls = it.get(STR, "KroneckerStudent")
        e = it.call(cls, [], {"a": sym("a", "i"), "b": sym("b", "i"), "df": sym("df"), "assume_centered": centred})
        it.call(it.getattr(e, "fit"), [X], {})
        pr = [x for x in it.path.events if x.kind == "problem"]
        if not pr:
            raise tf.Unsupported("no optimisation problem is built by fit")
        pr = pr[-1]
        ct = it.call(pr.vals["cost"], [A, B], {})
        g = it.call(pr.vals["egrad"], [A, B], {})
        return {"cost": ct, "g": g, "self": e}
    return explore(prog, build)


LAMBDAS = [R.mul(x, y) for x in (R.const(1), R.inv(n), n) for y in (R.const(1), HALF, R.const(2))]


@check("S02")
def s02():
    rep = Report("S02", "Cost and gradient given to the solver by KroneckerStudent.fit are interpreted on generic HPD factors; the "
                 "cost is the t negative log-likelihood up to a constant of the factors, the gradient its closed-form derivative "
                 "up to one positive factor, for both centring modes.")
    prog = Program()
    rep.progs.append(prog)
    where = anchor(prog, STR, "_generate_egrad_function_kronecker_student")
    wcost = anchor(prog, STR, "_generate_cost_function_kronecker_student")
    A, B = hpd("A", a), hpd("B", b)
    A1, B1 = hpd("A1", a), hpd("B1", b)
    df = R.sym("df")
    for centred in (True, False):
        tag = "centred" if centred else "mean removed"

        def go():
            X = X_T(True, True)
            if not centred:
                k = tf.fresh()
                mu = tf.scale_T(tf.contract([(X, [k, 0, 1])], [0, 1], (1, 1), (a, b), {k: n}), R.inv(n))
                X = tf.add_T(X, tf.contract([(tf.scale_T(mu, -1), [1, 2])], [0, 1, 2], (1, 2), (n, a, b), {}))
            rets = returned(student_problem(prog, centred))
            if not rets:
                rep.ob(tag + ": a result", None, where, "no path returns")
            for q in rets:
                ct = to_T(q.result["cost"])
                sub = tf.Subst({tf_node(A): A1, tf_node(B): B1}, {})
                ref = t_nll(A, B, X, df)
                ok, how, det = same(tf.sub_T(ct, sub(ct)), tf.sub_T(ref, sub(ref)), dims=KDIMS)
                rep.ob(tag + ": cost is the t negative log-likelihood of the data given", ok, wcost, det, how)
                g = q.result["g"]
                if not isinstance(g, (list, tuple)) or len(g) != 2:
                    rep.ob(tag + ": the gradient is a pair", False, where, "%r" % (g,))
                    continue
                g = [to_T(x) for x in g]
                for nm, t, d in (("A", g[0], a), ("B", g[1], b)):
                    sz = t.n == 2 and t.dims[0] == d and t.dims[1] == d
                    rep.ob("%s: gradient in %s has the size of %s" % (tag, nm, nm), sz, where, "shape %s" % (t.shape,))
                    if not sz:
                        return
                    ok, how, det = same(t, tf.herm_T(t), dims=KDIMS)
                    rep.ob("%s: gradient in %s is Hermitian" % (tag, nm), ok, where, det, how)
                rA, rB = t_grad(A, B, X, df)
                res = None
                for lam in LAMBDAS:
                    o1 = same(g[0], tf.scale_T(rA, lam), dims=KDIMS)
                    if not o1[0]:
                        res = res or (o1, "A")
                        continue
                    o2 = same(g[1], tf.scale_T(rB, lam), dims=KDIMS)
                    res = (o2, "B")
                    break
                if not res[0][0]:
                    f = common_factor(g, (rA, rB))
                    if f:
                        res = ((True, "random interpretation", "factor %s" % f), "A and B")
                rep.ob("%s: gradient is the derivative of the cost up to one positive factor" % tag, res[0][0], where,
                       "part %s: %s" % (res[1], res[0][2]), res[0][1])
        rep.guard(tag, go, where)
    return rep


def common_factor(g, ref):
    """a positive number at every point (it may depend on the parameters)"""
    import numev
    import numpy as np
    out = []
    for k in range(4):
        pt = numev.Point(k, KDIMS[k % 2])
        try:
            x = np.concatenate([pt.T(t).reshape(-1) for t in g])
            y = np.concatenate([pt.T(t).reshape(-1) for t in ref])
        except (numev.NoEval, np.linalg.LinAlgError):
            return None
        l = np.vdot(y, x) / np.vdot(y, y)
        if abs(l.imag) > 1e-9 * abs(l) or l.real <= 0 or np.max(np.abs(x - l * y)) > 1e-8 * np.max(np.abs(x)):
            return None
        out.append(l.real)
    return out


# ------------------------------------------------------------------ S03
def exc_name(q):
    e = q.result
    c = getattr(e, "cls", None)
    return getattr(c, "name", None) or getattr(e, "name", None) or str(e)[:60]


def neg(s):
    return ("rat", R.neg(R.sym(s)), "f")


def val(v):
    if isinstance(v, tuple) and v and v[0] == "sym":
        return sym(v[1], v[2])
    if isinstance(v, tuple) and v and v[0] == "rat":
        return Arr(tf.scalar(v[1]), v[2], py=True)
    if isinstance(v, R.Rat):
        return Arr(tf.scalar(v), "i", py=True)
    return v


def trailing(e):
    return {k: v for k, v in e.attrs.items() if k.endswith("_") and not k.startswith("_")}


def refuse_fit(rep, prog, name, cls, X, ctor, kw=None, mod=COV, args=()):
    """construction or fit raises, and no attribute of the fit is changed"""
    where = anchor(prog, mod, cls)

    def build(it):
        d = {k: val(v) for k, v in ctor.items()}
        e = it.call(it.get(mod, cls), [], d)
        it.fitted = e
        it.before = dict(e.attrs)
        return it.call(it.getattr(e, "fit"), [X(it)], {k: val(v) for k, v in (kw or {}).items()})

    def go():
        qs = explore(prog, build)
        bad = [q for q in qs if q.outcome == "return"]
        rep.ob(name + ": refused", not bad and bool(qs), where,
               "a path returns under %s" % [str(x)[:80] for x in bad[0].conds[-3:]] if bad else exc_name(qs[0]))
        for q in qs:
            e = getattr(q.interp, "fitted", None)
            if q.outcome != "raise" or e is None:
                continue
            ch = [k for k, v in trailing(e).items() if k not in q.interp.before or q.interp.before[k] is not v]
            ch = [k for k in ch if k != "n_features_in_"]
            rep.ob(name + ": no fitted attribute is changed", not ch, where, "changed: %s" % ch)
    rep.guard(name, go, where)


def refuse_call(rep, prog, name, mod, fname, build):
    where = anchor(prog, mod, fname)

    def go():
        qs = explore(prog, build)
        bad = [q for q in qs if q.outcome == "return"]
        rep.ob(name + ": refused", not bad and bool(qs), where,
               "a path returns under %s" % [str(x)[:80] for x in bad[0].conds[-3:]] if bad else exc_name(qs[0]))
    rep.guard(name, go, where)


def accept_call(rep, prog, name, mod, fname, build):
    where = anchor(prog, mod, fname)

    def go():
        qs = explore(prog, build)
        bad = [q for q in qs if q.outcome == "raise"]
        rep.ob(name + ": accepted", not bad and bool(qs), where,
               "raises %s under %s" % (exc_name(bad[0]), [str(x)[:80] for x in bad[0].conds[-3:]]) if bad else "")
    rep.guard(name, go, where)


@check("S03")
def s03():
    rep = Report("S03", "Typestate of refusals: with each impossible configuration (symbolic, covering its whole range) every path "
                 "of the call raises, and no fitted attribute is assigned on the way; with valid configurations no path raises.")
    prog = Program()
    rep.progs.append(prog)
    V = {"tol": ("sym", "tol", "f"), "iter_max": ("sym", "itmax", "i")}
    zero = ("rat", R.const(0), "f")
    for cplx in (False, True):
        pre, Pre = ("complex_", "Complex") if cplx else ("", "")
        X = lambda it: arr(it, X_T(cplx), cplx)
        for what, v in (("df < 0", neg("df")), ("df = 0", zero), ("integer df = 0", 0)):
            nm = pre + "student_t_mle_fixed_point"
            refuse_call(rep, prog, "%s with %s" % (nm, what), COV, nm,
                        lambda it: it.call(it.get(COV, nm), [X(it)], {"df": val(v), **{k: val(x) for k, x in V.items()}}))
            cl = Pre + "CenteredStudentMLE"
            refuse_fit(rep, prog, "%s with %s" % (cl, what), cl, X, {"df": v, **V})
        cl = Pre + "TylerShapeMatrix"
        refuse_fit(rep, prog, cl + " with an unknown method", cl, X, {"method": "unknown method", **V})

        for bad in ("", "natural", "Fixed-point", "fixed-point "):
            refuse_fit(rep, prog, "%s with the unknown method %r" % (cl, bad), cl, X, {"method": bad, **V})
        refuse_fit(rep, prog, cl + " with no method", cl, X, {"method": None, **V})

        def sc(it, model, fit=True, cl=cl):
            e = it.call(it.get(COV, cl), [], {k: val(x) for k, x in V.items()})
            it.call(it.getattr(e, "fit"), [X(it)], {})
            Y = arr(it, X_T(cplx, name="Y"), cplx)
            return it.call(it.getattr(e, "score"), [Y], {} if model == "default" else {"model": model})
        refuse_call(rep, prog, cl + ".score with an unknown model", COV, cl, lambda it: sc(it, "unknown model"))
        accept_call(rep, prog, cl + ".score with its default model", COV, cl, lambda it: sc(it, "default"))
        for bad in (None, "", "gaussian", "Gauss"):
            refuse_call(rep, prog, "%s.score with the unknown model %r" % (cl, bad), COV, cl, lambda it: sc(it, bad))
        hub = "_huber_m_estimator_function"
        for what, l, bt in (("threshold < 0", neg("r"), ("sym", "c", "f")), ("threshold = 0", zero, ("sym", "c", "f")),
                            ("beta < 0", ("sym", "c", "f"), neg("r"))):
            if cplx or not defined(prog, COV, hub):
                continue
            refuse_call(rep, prog, "%s with %s" % (hub, what), COV, hub, lambda it: it.call(
                it.get(COV, hub), [arr(it, leafT("q", (n,), real=True, pos=True))], {"lbda": val(l), "beta": val(bt)}))
        if not cplx and defined(prog, COV, hub):
            accept_call(rep, prog, hub + " with positive constants", COV, hub, lambda it: it.call(
                it.get(COV, hub), [arr(it, leafT("q", (n,), real=True, pos=True))],
                {"lbda": val(("sym", "c", "f")), "beta": val(("sym", "r", "f"))}))
    # Tyler cost
    for cplx, nm in ((False, "Tyler_cost_real"), (True, "Tyler_cost_complex")):
        def go(nm=nm, cplx=cplx):
            qs = call(prog, COST, nm, lambda it: arr(it, X_T(cplx), cplx),
                      lambda it: arr(it, leafT("Q", (m, m), real=not cplx, herm=True, psd=True, inv=True), cplx))
            bad = [q for q in qs if q.outcome == "return" and not assumes_equal(q, p, m)]
            rep.ob(nm + ": mismatching dimensions are refused", bool(qs) and not bad, anchor(prog, COST, nm))
        rep.guard(nm, go, anchor(prog, COST, nm))
    # structured
    Xk = lambda it: arr(it, X_T(True), True)
    AB_ = {"a": ("sym", "a", "i"), "b": ("sym", "b", "i")}

    bad_mm = lambda it: it.call(it.get(STR, "estimation_cov_kronecker_MM"), [Xk(it)], {k: val(v) for k, v in {**AB_, **V}.items()})
    where = anchor(prog, STR, "estimation_cov_kronecker_MM")
    for name, mk_ in (("estimation_cov_kronecker_MM", bad_mm),
                      ("KroneckerEllipticalMM", kfit("KroneckerEllipticalMM", {**AB_, **V})),
                      ("KroneckerStudent", kfit("KroneckerStudent", {**AB_, "df": ("sym", "df", "f")}))):
        def go():
            qs = explore(prog, lambda it: mk_(it, Xk) if name[0] == "K" else mk_(it))
            bad = [q for q in qs if q.outcome == "return" and not assumes_equal(q, p, R.mul(a, b))]
            rep.ob(name + ": a*b different from n_features is refused", bool(qs) and not bad, anchor(prog, STR, name),
                   "a path returns under %s" % [str(x)[:80] for x in bad[0].conds[-3:]] if bad else exc_name(qs[0]))
            for q in qs:
                changed_ob(rep, name, q, anchor(prog, STR, name))
        rep.guard(name, go, where)
    for what, v in (("df < 0", neg("df")), ("df = 0", zero)):
        def go():
            qs = explore(prog, lambda it: kfit("KroneckerStudent", {**AB_, "df": v})(it, lambda i: arr(i, X_T(True, True), True)))
            bad = [q for q in qs if q.outcome == "return"]
            rep.ob("KroneckerStudent with %s: refused" % what, bool(qs) and not bad, anchor(prog, STR, "KroneckerStudent"))
            for q in qs:
                changed_ob(rep, "KroneckerStudent with " + what, q, anchor(prog, STR, "KroneckerStudent"))
        rep.guard("KroneckerStudent " + what, go)
    # covariance mappings
    for fname, cplx in (("covariancetoreal", True), ("covariancetocomplex", False)):
        for what, dims in (("non-square matrix", (p, m)), ("vector", (p,)), ("stack of matrices", (n, p, p))):
            if what == "non-square matrix" and fname == "covariancetocomplex":
                dims = (R.mul(R.const(2), p), R.mul(R.const(2), m))

            def b_(it):
                return it.call(it.get(MAP, fname), [arr(it, leafT("Z", dims, real=not cplx), cplx)], {})

            def go():
                qs = explore(prog, b_)
                bad = [q for q in qs if q.outcome == "return" and not assumes_equal(q, p, m)]
                rep.ob("%s refuses a %s" % (fname, what), bool(qs) and not bad, anchor(prog, MAP, fname))
            rep.guard(fname, go)
    # valid configurations
    from checks_c_estim import natural_cases
    for r, init, tag in runs(rep, cases(norms=("None", "trace", "determinant", "element")) + emp_cases() + mm_cases()
                             + natural_cases()):
        rs = r.raises()
        rep.ob(tag + ": no refusal of a valid configuration", not rs, r.where,
               "raises %s under %s" % (exc_name(rs[0]), [str(x)[:80] for x in rs[0].conds[-3:]]) if rs else "")
    return rep


def defined(prog, mod, name):
    import ast
    try:
        return any(isinstance(nd, (ast.FunctionDef, ast.ClassDef)) and nd.name == name for nd in ast.walk(prog.src(mod).tree))
    except tf.Unsupported:
        return False


def kfit(cls, ctor):
    def go(it, X):
        e = it.call(it.get(STR, cls), [], {k: val(v) for k, v in ctor.items()})
        it.fitted = e
        it.before = dict(e.attrs)
        return it.call(it.getattr(e, "fit"), [X(it)], {})
    return go


def changed_ob(rep, name, q, where):
    e = getattr(q.interp, "fitted", None)
    if q.outcome != "raise" or e is None:
        return
    ch = [k for k, v in trailing(e).items() if k not in q.interp.before or q.interp.before[k] is not v]
    ch = [k for k in ch if k != "n_features_in_"]
    rep.ob(name + ": no fitted attribute is changed by the refusal", not ch, where, "changed: %s" % ch)


def assumes_equal(q, x, y):
    return equal_between(q, R.sub(x, y))


def equal_between(q, d):
    from checks_c_estim import as_rat
    for cd in q.conds:
        if cd.kind == "eq0" and cd.val:
            r = as_rat(cd.t) if hasattr(cd.t, "terms") else cd.t
            if r is not None and not R.sub(r, R.const(0)).is_zero():
                k = R.div(r, d)
                if k.const() is not None:
                    return True
    return False
