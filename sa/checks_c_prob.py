"""M01, M02, D01, D02: real/complex mappings and the complex distributions."""
import itertools
import rat as R
import tf
import interp
import npm
import ext
from interp import Inst, Func, Bound, Opaque, Native
from world import *
from chk import Report, same
from checks_c_struct import anchor, returned, exc_name
from relate import to_T

CHECKS = {}
P2 = R.mul(R.const(2), p)
N2 = [{"n": 4, "p": 2, "N": 2, "m": 3}, {"n": 3, "p": 3, "N": 3, "m": 2}]


def check(pid):
    def d(f):
        CHECKS[pid] = f
        return f
    return d


def cleaf(name, *dims, **kw):
    return lambda it: arr(it, leafT(name, dims, real=False, **kw), True)


def rleaf(name, *dims, **kw):
    return lambda it: arr(it, leafT(name, dims, real=True, **kw), False)


def sl(a=None, b=None):
    return slice(a, b, None)


def outcome(rep, prog, name, where, build, judge, exact=False):
    """interpret build and judge every path that returns; a path that raises is a violation"""
    def go():
        qs = explore(prog, build)
        if not returned(qs):
            rep.ob(name, False, where, "no path returns: %s" % [exc_name(q) for q in qs][:3])
            return
        for q in qs:
            if q.outcome == "raise":
                rep.ob(name, False, where, "raises %s" % exc_name(q))
            else:
                judge(q)
                if exact:
                    nar = [e for e in q.interp.path.events if e.kind == "narrow"]
                    rep.ob(name + ": values are converted without loss", not nar, where, "%s" % nar[:1])
    rep.guard(name, go, where)


def eq(rep, name, where, x, y, dims=N2):
    tx, ty = to_T(x), to_T(y)
    if tx is None or ty is None:
        rep.ob(name, x is y, where, "%r instead of %r" % (x, y))
        return
    ok, how, det = same(tx, ty, dims=dims)
    rep.ob(name, ok, where, det, how)
    if isinstance(x, interp.Arr) and isinstance(y, interp.Arr) and (x.dt == "c") != (y.dt == "c"):
        rep.ob(name + ": number field", False, where, "type %s instead of %s" % (x.dt, y.dt))


FORWARD = [("arraytoreal", "arraytocomplex", "vector", (p,), (P2,)),
           ("arraytoreal", "arraytocomplex", "data matrix", (n, p), (n, P2)),
           ("covariancetoreal", "covariancetocomplex", "matrix", (p, p), (P2, P2)),
           ("covariancestoreal", "covariancestocomplex", "stack", (N, p, p), (N, P2, P2))]


@check("M01")
def m01():
    rep = Report("M01", "Each mapping is interpreted on a generic input of every supported shape; the composition with its "
                 "inverse is compared entrywise with the input, in both directions; inputs already on the target side and every "
                 "unsupported shape are followed to their outcome.")
    prog = Program()
    rep.progs.append(prog)
    for to, back, what, cd, rd in FORWARD:
        w = anchor(prog, MAP, to)
        z = cleaf("Z", *cd)
        call = lambda it, f, x: it.call(it.get(MAP, f), [x], {})

        def there(it):
            x = z(it)
            r = call(it, to, x)
            return {"x": x, "r": r, "b": call(it, back, r), "again": call(it, to, r), "same": call(it, back, x)}

        def judge(q):
            d = q.result
            nm = "%s/%s on a %s" % (to, back, what)
            rep.ob("%s: the image is real with twice the features" % nm,
                   d["r"].dt == "f" and tuple(d["r"].shape) == tuple(rd), w, "%s of shape %s" % (d["r"].dt, d["r"].shape))
            eq(rep, "%s: back gives the original" % nm, w, d["b"], d["x"])
            eq(rep, "%s: a real input is returned unchanged by %s" % (nm, to), w, d["again"], d["r"])
            eq(rep, "%s: a complex input is returned unchanged by %s" % (nm, back), w, d["same"], d["x"])
        outcome(rep, prog, "%s/%s on a %s" % (to, back, what), w, there, judge, True)
        if to.startswith("array"):
            y = rleaf("Y", *rd)

            def rev(it):
                x = y(it)
                k = call(it, back, x)
                return {"x": x, "k": k, "b": call(it, to, k)}

            def judge2(q):
                nm = "%s/%s on a real %s" % (back, to, what)
                rep.ob("%s: the image is complex with half the features" % nm,
                       q.result["k"].dt == "c" and tuple(q.result["k"].shape) == tuple(cd), w, "%s of shape %s" %
                       (q.result["k"].dt, q.result["k"].shape))
                eq(rep, "%s: back gives the original" % nm, w, q.result["b"], q.result["x"])
            outcome(rep, prog, "%s/%s on a real %s" % (back, to, what), w, rev, judge2, True)
        else:
            # real representations in the image: r(C) -> C -> r(C)
            def rev(it):
                x = call(it, to, z(it))
                return {"x": x, "b": call(it, to, call(it, back, x))}
            outcome(rep, prog, "%s/%s on an image" % (back, to), w, rev,
                    lambda q: eq(rep, "%s/%s on the image of a %s: back gives the original" % (back, to, what), w,
                                 q.result["b"], q.result["x"]))
    # rows and slices are mapped one by one
    for to, one, what, dims in (("arraytoreal", "arraytoreal", "row", (n, p)), ("arraytocomplex", "arraytocomplex", "row", (n, P2)),
                                ("covariancestoreal", "covariancetoreal", "matrix", (N, p, p)),
                                ("covariancestocomplex", "covariancetocomplex", "matrix", (N, P2, P2))):
        w = anchor(prog, MAP, to)
        mk = rleaf("Y", *dims) if to.endswith("complex") else cleaf("Z", *dims)

        def each(it):
            x = mk(it)
            r = it.call(it.get(MAP, to), [x], {})
            e = it.call(it.get(MAP, one), [npm.sym_elem(it, x, ("o", "k"))], {})
            return {"r": npm.sym_elem(it, r, ("o", "k")), "e": e}
        outcome(rep, prog, "%s: %s k" % (to, what), w, each,
                lambda q: eq(rep, "%s: %s k of the image is the image of %s k" % (to, what, what), w, q.result["r"], q.result["e"]))
    refused(rep, prog)
    rep.assumptions.append("exact arithmetic; halving and doubling are exact in floating point as well, barring overflow")
    return rep


def refused(rep, prog):
    C = R.const
    odd = [C(1), C(3), C(5), C(7), R.add(P2, I1)]
    bad = []
    for f in ("arraytoreal", "arraytocomplex"):
        mk = cleaf if f == "arraytoreal" else rleaf
        bad += [(f, mk("Z"), "number"), (f, mk("Z", n, P2, p), "3-dimensional array")]
    for o in odd:
        bad += [("arraytocomplex", rleaf("Y", o), "vector of odd length %s" % o),
                ("arraytocomplex", rleaf("Y", n, o), "data matrix with %s (odd) features" % o),
                ("covariancetocomplex", rleaf("Y", o, o), "matrix of odd size %s" % o),
                ("covariancestocomplex", rleaf("Y", N, o, o), "stack of matrices of odd size %s" % o)]
    P = R.mul(C(2), p)
    for f in ("covariancetoreal", "covariancetocomplex"):
        mk = cleaf if f == "covariancetoreal" else rleaf
        bad += [(f, mk("Z", P), "vector"), (f, mk("Z", P, P, P), "3-dimensional array"),
                (f, mk("Z", P, R.add(P, C(2))), "non-square matrix"), (f, mk("Z"), "number"),
                (f, mk("Z", R.add(P, C(4)), P), "non-square matrix (tall)")]
    for f in ("covariancestoreal", "covariancestocomplex"):
        mk = cleaf if f == "covariancestoreal" else rleaf
        bad += [(f, mk("Z", P), "vector"), (f, mk("Z", P, P), "single matrix"),
                (f, mk("Z", N, P, P, P), "4-dimensional array"), (f, mk("Z", C(3), P, R.add(P, C(2))), "stack of non-square matrices")]
    for f, mk, what in bad:
        w = anchor(prog, MAP, f)

        def go():
            qs = explore(prog, lambda it: it.call(it.get(MAP, f), [mk(it)], {}))
            r = returned(qs)
            rep.ob("%s refuses a %s" % (f, what), bool(qs) and not r, w, "%d paths return" % len(r))
        rep.guard("%s refuses a %s" % (f, what), go, w)


@check("M02")
def m02():
    rep = Report("M02", "With r the data mapping and K the covariance mapping as interpreted, for generic complex Z (n x p), C "
                 "(p x p) and z: the second moment of r(Z) averaged over the rotation Z -> iZ (which removes the "
                 "pseudo-covariance) equals K of the second moment of Z; K(C) r(z) = r(C z)/2; r(z)^T K(C) r(z) = z^H C z / 2 and "
                 "K(C) is symmetric for Hermitian C.")
    prog = Program()
    rep.progs.append(prog)
    w = anchor(prog, MAP, "covariancetoreal")
    call = lambda it, f, x: it.call(it.get(MAP, f), [x], {})

    def moment(t, cplx):
        k, i, j = tf.fresh(), tf.fresh(), tf.fresh()
        d = t.dims[1]
        return tf.contract([(t, [k, 0]), (tf.conj_T(t) if cplx else t, [k, 1])], [0, 1], (1, 1), (d, d), {k: n})

    def m1(it):
        z = leafT("Z", (n, p), real=False)
        a = call(it, "arraytoreal", arr(it, z, True))
        b = call(it, "arraytoreal", arr(it, tf.mul_i(z), True))
        S = moment(z, True)
        return {"m": tf.scale_T(tf.add_T(moment(a.t, False), moment(b.t, False)), HALF),
                "K": call(it, "covariancetoreal", arr(it, S, True)).t}

    def j1(q):
        ok, how, det = same(q.result["m"], q.result["K"], dims=N2)
        rep.ob("second moment of the mapped data is the mapped second moment (circular part)", ok, w, det, how)
    outcome(rep, prog, "second moment", w, m1, j1)

    def m2(it):
        z, Cm = leafT("z", (p,), real=False), leafT("C", (p, p), real=False)
        rz = call(it, "arraytoreal", arr(it, z, True)).t
        K = call(it, "covariancetoreal", arr(it, Cm, True)).t
        i = tf.fresh()
        Cz = tf.contract([(Cm, [0, i]), (z, [i])], [0], (1,), (p,), {i: p})
        i = tf.fresh()
        return {"l": tf.contract([(K, [0, i]), (rz, [i])], [0], (1,), (P2,), {i: P2}),
                "r": tf.scale_T(call(it, "arraytoreal", arr(it, Cz, True)).t, HALF)}

    def j2(q):
        ok, how, det = same(q.result["l"], q.result["r"], dims=N2)
        rep.ob("the real representation of C acts as one half of C", ok, w, det, how)
    outcome(rep, prog, "action", w, m2, j2)

    def m3(it):
        z, Cm = leafT("z", (p,), real=False), leafT("C", (p, p), real=False, herm=True)
        rz = call(it, "arraytoreal", arr(it, z, True)).t
        K = call(it, "covariancetoreal", arr(it, Cm, True)).t
        i, j = tf.fresh(), tf.fresh()
        l = tf.contract([(rz, [i]), (K, [i, j]), (rz, [j])], [], (), (), {i: P2, j: P2})
        i, j = tf.fresh(), tf.fresh()
        r = tf.contract([(tf.conj_T(z), [i]), (Cm, [i, j]), (z, [j])], [], (), (), {i: p, j: p})
        return {"l": l, "r": tf.scale_T(r, HALF), "K": K, "Kt": tf.transpose_last(K)}

    def j3(q):
        ok, how, det = same(q.result["l"], q.result["r"], dims=N2)
        rep.ob("r(z)^T K(C) r(z) = z^H C z / 2, so K(C) is positive (semi-)definite exactly when C is", ok, w, det, how)
        ok, how, det = same(q.result["K"], q.result["Kt"], dims=N2)
        rep.ob("K(C) is symmetric for Hermitian C", ok, w, det, how)
    outcome(rep, prog, "definiteness", w, m3, j3)

    # the inverse mappings obey the same relation
    def m5(it):
        y, K = leafT("y", (P2,), real=True), leafT("K", (P2, P2), real=True)
        x = call(it, "arraytocomplex", arr(it, y, False))
        Z = leafT("C", (p, p), real=False)
        Kz = call(it, "covariancetoreal", arr(it, Z, True))
        Cb = call(it, "covariancetocomplex", Kz).t
        i = tf.fresh()
        Ky = tf.contract([(Kz.t, [0, i]), (y, [i])], [0], (1,), (P2,), {i: P2})
        i = tf.fresh()
        return {"l": call(it, "arraytocomplex", arr(it, Ky, False)).t,
                "r": tf.scale_T(tf.contract([(Cb, [0, i]), (x.t, [i])], [0], (1,), (p,), {i: p}), HALF)}

    def j5(q):
        ok, how, det = same(q.result["l"], q.result["r"], dims=N2)
        rep.ob("the inverse mappings obey the same relation", ok, anchor(prog, MAP, "covariancetocomplex"), det, how)
    outcome(rep, prog, "inverse action", anchor(prog, MAP, "covariancetocomplex"), m5, j5)
    return rep


# ------------------------------------------------------------------ D01, D02
NORMAL = ("complex_multivariate_normal", "complex_multivariate_normal_gen", "mean", "cov", ())
STUDENT = ("complex_multivariate_t", "complex_multivariate_t_gen", "loc", "shape", ("df",))
DISTS = (NORMAL, STUDENT)
METHODS = {"complex_multivariate_normal": ("logpdf", "pdf", "logcdf", "cdf", "rvs", "entropy"),
           "complex_multivariate_t": ("logpdf", "pdf", "cdf", "rvs", "entropy")}
DF = R.sym("df")


def location(kind, name="mu"):
    """a location parameter as a user gives it"""
    if kind == "none":
        return lambda it: None
    if kind == "list":
        return lambda it: [arr(it, leafT(name + "0", (), real=False), True), arr(it, leafT(name + "1", (), real=False), True)]
    return (cleaf if kind == "complex" else rleaf)(name, p)


def scatter(kind, name="C"):
    if kind == "default":
        return None
    if kind == "diagonal":
        return rleaf(name, p, pos=True)
    if kind == "complex diagonal":
        return cleaf(name, p)
    return (cleaf if kind == "complex" else rleaf)(name, p, p, herm=True, psd=True, inv=True)


def reference(it, loc, sca, one):
    """(is complex, mapped location, mapped scatter): the mapping the property demands, through robuststats.models.mappings"""
    cx = any(v is not None and v.dt == "c" for v in (loc, sca))
    if not cx:
        return False, loc, sca
    m_ = loc if loc is not None else arr(it, tf.const_T((sca.shape[0],), R.ZERO), False)
    m_ = arr(it, m_.t, True)
    if sca is None:
        k = arr(it, tf.eye(p), True)
    elif sca.ndim == 1:
        k = arr(it, tf.contract([(tf.eye(p), [0, 1]), (sca.t, [1])], [0, 1], (1, 1), (p, p), {}), True)
    else:
        k = arr(it, sca.t, True)
    call = lambda f, x: it.call(it.get(MAP, f), [x], {})
    return True, call("arraytoreal", m_), call("covariancetoreal", k)


def ref_point(it, x, cx):
    if cx:
        return it.call(it.get(MAP, "arraytoreal"), [arr(it, x.t, True)], {})
    return arr(it, tf.real_part(x.t), False) if x.dt == "c" else x


def combos():
    for lk in ("none", "real", "complex"):
        for sk in ("default", "real", "complex", "diagonal", "complex diagonal"):
            if lk == "none" and sk == "default":
                continue
            yield lk, sk


def scipy_calls(q, name):
    return [e for e in q.events if e.kind == "scipy" and e.name == name]


def dists(q):
    return [e for e in q.events if e.kind == "dist"]


def plain(v):
    return v.t if isinstance(v, interp.Arr) else v


def kept(x, y):
    """the value handed over is the one given"""
    if x is y:
        return True
    if isinstance(x, interp.Arr) and isinstance(y, interp.Arr):
        return x.dt == y.dt and same(x.t, y.t, dims=N2)[0]
    return False


def observe(it, inst, dist, frozen, lk, sk, meth, xk, xs, lower, extra=None):
    """call one method of a distribution; the reference values are computed next to it"""
    name, cls, pl, ps, more = dist
    loc = location(lk)(it)
    sca = scatter(sk)
    sca = sca(it) if sca else None
    given = {}
    if loc is not None:
        given[pl] = loc
    if sca is not None:
        given[ps] = sca
    if "df" in more:
        given["df"] = Arr(tf.scalar(DF), "f", py=True)
    own = {}
    cx, rl, rs = reference(it, loc, sca, None)
    r = {"cx": cx, "loc": rl, "scatter": rs}
    if meth in ("logpdf", "pdf", "logcdf", "cdf"):
        x = (cleaf if xk == "complex" else rleaf)("x", *xs)(it)
        own["x"] = x
        r["x"] = ref_point(it, x, cx)
        if lower:
            l = (cleaf if xk == "complex" else rleaf)("low", p)(it)
            own["lower_limit"] = l
            r["low"] = ref_point(it, l, cx)
    own.update(extra(it) if extra else {})
    d = it.get(PROB, name)
    if frozen:
        d = it.call(d, [], given)
    else:
        own.update(given)
    mark = len(it.path.events)
    r["out"] = it.call(it.getattr(d, meth), [], own)
    r["own"] = own
    r["given"] = given
    r["events"] = it.path.events[mark:]
    ev = [e for e in r["events"] if e.kind == "dist"]
    if len(ev) == 1 and meth != "rvs":
        r["value"] = ext.dist_value(it, ev[0].dist, meth, ev[0].vals)
    if meth == "rvs":
        leaf = [e for e in r["events"] if e.kind == "rng"]
        r["draws"] = len(leaf)
        if len(leaf) == 1:
            a = arr(it, tf.from_node(leaf[0].leaf), False)
            if cx:
                h = R.mul(a.shape[-1], HALF)
                re = it.getitem(a, (Ellipsis, sl(None, npm.num(h))))
                im = it.getitem(a, (Ellipsis, sl(npm.num(h), None)))
                a = arr(it, tf.add_T(re.t, tf.mul_i(im.t)), True)
            r["want"] = a
    return r


def entry(prog, dist, frozen, meth):
    cls = dist[1].replace("_gen", "_frozen") if frozen else dist[1]
    import ast
    for nd in ast.walk(prog.src(PROB).tree):
        if isinstance(nd, ast.ClassDef) and nd.name == cls:
            for f in nd.body:
                if isinstance(f, ast.FunctionDef) and f.name == meth:
                    return "robuststats/models/probability.py:%s.%s:%d" % (cls, meth, f.lineno)
    return anchor(prog, PROB, cls)


@check("D01")
def d01():
    rep = Report("D01", "Every evaluation and sampling method of the generic and frozen complex distributions is interpreted for "
                 "every combination of absent/real/complex location, default/real/complex/diagonal scatter and real/complex "
                 "points (vector, several rows, lower limit). At the call that reaches the real scipy implementation location, "
                 "scatter, points and limits are compared with the image under the tree's own data and covariance mappings; the "
                 "value returned is compared with scipy's, samples with the inverse mapping of what scipy drew.")
    prog = Program()
    rep.progs.append(prog)
    jobs = [(d, fr, m_) for d in DISTS for fr in (False, True) for m_ in METHODS[d[0]]]

    def one(sub, job):
        prog = Program()
        sub.progs.append(prog)
        d, fr, meth = job
        w = entry(prog, d, fr, meth)
        for lk, sk in combos():
            if meth in ("logpdf", "pdf", "logcdf", "cdf"):
                forms = [("complex", (p,), False), ("real", (p,), False), ("complex", (n, p), False), ("real", (n, p), False)]
                if meth.endswith("cdf"):
                    forms += [("complex", (p,), True), ("real", (n, p), True)]
                sizes = [None]
            else:
                forms = [(None, None, False)]
                sizes = ["default", "number", "pair", "one"] if meth == "rvs" else [None]
            for xk, xs, low in forms:
                for size in sizes:
                    nm = "%s%s.%s, %s location, %s scatter" % (d[0], " (frozen)" if fr else "", meth, lk, sk)
                    if xk:
                        nm += ", %s %s%s" % (xk, "points" if len(xs) == 2 else "point", ", lower limit" if low else "")
                    if size:
                        nm += ", size %s" % size
                    ex = {"number": lambda it: {"size": npm.num(N)}, "pair": lambda it: {"size": (npm.num(N), npm.num(m))},
                          "one": lambda it: {"size": 1}}.get(size)
                    outcome(sub, prog, nm, w, lambda it: observe(it, None, d, fr, lk, sk, meth, xk, xs, low, ex),
                            lambda q: judge01(sub, nm, w, d, fr, meth, q.result, size))
    rep.parallel(jobs, one)
    rep.assumptions.append("scipy's own distributions are taken as correct for the real parameters they are given")
    return rep


def judge01(rep, nm, w, d, fr, meth, r, size):
    ev = [e for e in r["events"] if e.kind == "dist"]
    if len(ev) != 1:
        rep.ob(nm + ": one call of scipy's distribution", False if not ev else None, w, "%d calls" % len(ev))
        return
    e = ev[0]
    par = list(e.params)
    same_loc = par[0] is r["loc"] if r["loc"] is None else None
    if same_loc is None:
        eq(rep, nm + ": location", w, par[0], r["loc"])
    elif not same_loc and isinstance(par[0], interp.Arr):      # scipy reads None as zero
        rep.ob(nm + ": location", par[0].t.is_zero(), w, "an absent location became %s" % tf.show(par[0].t)[:80])
    if r["scatter"] is None:
        k = par[1]
        rep.ob(nm + ": scatter", k == 1 or (isinstance(k, interp.Arr) and k.t == tf.scalar(I1)), w, "default became %r" % (k,))
    else:
        eq(rep, nm + ": scatter", w, par[1], r["scatter"])
    if "df" in d[4]:
        rep.ob(nm + ": degrees of freedom", isinstance(par[2], interp.Arr) and par[2].t == tf.scalar(DF), w, "%r" % (par[2],))
    if "x" in r:
        eq(rep, nm + ": points", w, e.x, r["x"])
    if "low" in r:
        if e.lower is None:
            rep.ob(nm + ": lower limit", False, w, "not handed over")
        else:
            eq(rep, nm + ": lower limit", w, e.lower, r["low"])
    out = r["out"]
    if meth == "rvs":
        if r.get("want") is None:
            rep.ob(nm + ": samples", None, w, "%d draws" % r["draws"])
        else:
            eq(rep, nm + ": samples", w, out, r["want"])
        return
    if not isinstance(out, interp.Arr):
        rep.ob(nm + ": value", None, w, "%r" % (out,))
        return
    rep.ob(nm + ": the value is real", out.dt != "c", w, "type %s" % out.dt)
    eq(rep, nm + ": the value is scipy's", w, out, r["value"])


DATA = {"x", "mean", "cov", "loc", "shape", "lower_limit"}


def own_sig(prog, cls, meth):
    import ast
    for nd in prog.src(PROB).tree.body:
        if isinstance(nd, ast.ClassDef) and nd.name == cls:
            for f in nd.body:
                if isinstance(f, ast.FunctionDef) and f.name == meth:
                    return f.args
    return None


def options(prog, it, cls, base, meth):
    """(positional names after self in scipy's order, keyword-only names) of a method, own options appended"""
    a = ext.scipy_sig(it, base, meth)
    b = own_sig(prog, cls, meth)
    if a is None:
        return None
    pos = [x.arg for x in a.args][1:]
    kwo = [x.arg for x in a.kwonlyargs]
    more = []
    if b is not None:
        more = [x.arg for x in (b.args[1:] + b.kwonlyargs) if x.arg not in pos + kwo]
    return pos, kwo, more


def probe(it, o):
    if o == "size":
        return npm.num(N)
    if o in ("abseps", "releps", "df"):
        return Arr(tf.scalar(R.sym("opt_" + o)), "f", py=True)
    if o == "maxpts":
        return Arr(tf.scalar(R.sym("opt_maxpts")), "i", py=True)
    return Opaque("the %s given" % o, attrs={"truth": True})


tf.POS_SYMBOLS.update({"opt_abseps", "opt_releps", "opt_df", "opt_maxpts"})
tf.INT_SYMBOLS.update({"opt_maxpts"})


@check("D02")
def d02():
    rep = Report("D02", "For every method, constructor and call operator of the complex distributions each option of the installed "
                 "scipy method (and of the overriding method) is given a value of its own, by keyword and by position in scipy's "
                 "order, with real and with complex parameters; the argument bound at the scipy call is compared with it, and the "
                 "remaining options with scipy's defaults.")
    prog = Program()
    rep.progs.append(prog)
    jobs = []
    for d in DISTS:
        gen = d[1]
        fro = gen.replace("_gen", "_frozen")
        for meth in METHODS[d[0]]:
            jobs.append((d, gen, gen.replace("complex_", ""), meth, "generic"))
            jobs.append((d, fro, fro.replace("complex_", ""), meth, "frozen"))
        jobs.append((d, fro, fro.replace("complex_", ""), "__init__", "new"))
        jobs.append((d, gen, gen.replace("complex_", ""), "__call__", "call"))
        jobs.append((d, gen, gen.replace("complex_", ""), "__init__", "new"))

    def one(sub, job):
        prog = Program()
        sub.progs.append(prog)
        d, cls, base, meth, how = job
        pos, kwo, more = None, None, None

        def sig(it):
            return options(prog, it, cls, base, meth)
        box = {}
        explore(prog, lambda it: box.update(s=sig(it)))
        if not box["s"]:
            return                                        # not a method of the installed scipy
        pos, kwo, more = box["s"]
        w = entry(prog, d, cls.endswith("frozen"), meth)
        opts = [o for o in pos + kwo + more if o not in DATA]
        for o in more:
            sub.ob("%s.%s: option %s is an option of scipy's method" % (cls, meth, o), False if o not in DATA else True, w,
                   "%s has no such option, so it cannot be honoured" % base)
        for cplx in (False, True):
            forms = [("keyword", [o]) for o in opts] + [("all by keyword", opts), ("none", [])]
            forms += [("position", [o]) for o in opts if o in pos]
            for form, given in forms:
                nm = "%s.%s, %s parameters: %s %s" % (cls, meth, "complex" if cplx else "real", " ".join(given) or "no option",
                                                   ("given by " + form.replace("all by ", "")) if given else "given")
                outcome(sub, prog, nm, w, lambda it: forward(it, d, cls, meth, how, cplx, pos, form, given),
                        lambda q: judge02(sub, nm, w, base, meth, how, q.result))
    rep.parallel(jobs, one)
    return rep


def forward(it, d, cls, meth, how, cplx, pos, form, given):
    k = "complex" if cplx else "real"
    base = {d[2]: location(k)(it), d[3]: scatter(k)(it)}
    vals = {o: probe(it, o) for o in given}
    data = {}
    if how == "frozen":
        inst = it.call(it.get(PROB, cls), [], base)
    elif how == "new":
        inst = it.get(PROB, cls)
        data = dict(base) if cls.endswith("frozen") else {}
    else:
        inst = it.get(PROB, d[0])
        data = dict(base)
    if "x" in pos:
        data["x"] = (cleaf if cplx else rleaf)("x", n, p)(it)
    args = []
    kw = {**data, **vals}
    if form == "position":
        last = max(i for i, o in enumerate(pos) if o in given)
        args, kw = [], dict(kw)
        for o in pos[:last + 1]:
            if o in kw:
                args.append(kw.pop(o))
            else:                                        # an option in front of it: scipy's own default
                args.append(defaults(it, cls, meth)[o])
    mark = len(it.path.events)
    f = inst if how in ("new", "call") else it.getattr(inst, meth)
    it.call(f, args, kw)
    return {"events": it.path.events[mark:], "vals": vals, "defaults": defaults(it, cls, meth)}


def defaults(it, cls, meth):
    a = ext.scipy_sig(it, cls.replace("complex_", ""), meth)
    pos = [x.arg for x in a.args][1:]
    nd = len(a.defaults)
    r = {o: ext.lit(a.defaults[i - (len(pos) - nd)]) for i, o in enumerate(pos) if i >= len(pos) - nd}
    for x, v in zip(a.kwonlyargs, a.kw_defaults):
        r[x.arg] = ext.lit(v) if v is not None else None
    return r


def judge02(rep, nm, w, base, meth, how, r):
    target, owner = meth, base
    if how == "call":
        target, owner = "__init__", base.replace("_gen", "_frozen")
    ev = [e for e in r["events"] if e.kind == "scipy" and e.name == target and e.cls == owner]
    if not ev:
        ev = [e for e in r["events"] if e.kind == "scipy" and e.cls == owner and
              (e.name in meth or meth in e.name)]
    if len(ev) != 1:
        rep.ob(nm + ": one call of scipy's %s.%s" % (owner, target), False if not ev else None, w, "%d calls" % len(ev))
        return
    got = ev[0].args
    for o, v in r["vals"].items():
        if o not in got:
            rep.ob(nm + ": %s arrives" % o, False, w, "%s is not handed to scipy's %s" % (o, target))
        else:
            rep.ob(nm + ": %s arrives" % o, bool(kept(got[o], v)), w, "scipy's %s receives %s" % (o, showv(got[o])))
    for o, v in got.items():
        if o in DATA or o in r["vals"] or o in ("df",):
            continue
        dv = r["defaults"].get(o, v)
        rep.ob(nm + ": %s keeps scipy's default" % o, bool(default_eq(v, dv)), w, "scipy's %s receives %s instead of %s" %
               (o, showv(v), showv(dv)))


def default_eq(a, b):
    if kept(a, b):
        return True
    try:
        return num_of(a) == num_of(b) and num_of(a) is not None
    except Exception:
        return False


def num_of(v):
    if isinstance(v, bool) or v is None or isinstance(v, (str,)):
        return v
    if isinstance(v, interp.Arr):
        c_ = tf._is_scalar_const(v.t)
        return c_.const() if c_ is not None else None
    if isinstance(v, (int, float, interp.Fraction)):
        return interp.Fraction(repr(v)) if isinstance(v, float) else interp.Fraction(v)
    return None


def showv(v):
    if isinstance(v, interp.Arr):
        return tf.show(v.t)[:80]
    return v.name if isinstance(v, Opaque) else repr(v)
