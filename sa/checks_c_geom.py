"""G01-G06: manifolds."""
import rat as R
import tf
import interp
import npm
import ext
from interp import Inst, Opaque
from world import *
from chk import Report, same
from checks_c_struct import anchor, returned, exc_name
from relate import to_T

CHECKS = {}
tf.POS_SYMBOLS.update({"kk", "w1", "w2", "alpha"})
tf.INT_SYMBOLS.update({"kk"})
tf.INT_MIN.update({"kk": 2})
KK = R.sym("kk")
TWO = R.const(2)
GD = [{"p": 2, "kk": 2, "a": 2, "b": 3, "n": 3}, {"p": 3, "kk": 3, "a": 3, "b": 2, "n": 2}]


def check(pid):
    def d(f):
        CHECKS[pid] = f
        return f
    return d


# ------------------------------------------------------------ tensor helpers
def bt(parts, out, dims, bound):
    return tf.contract(parts, out, (1,) * len(out), dims, bound)


def lead(t):
    return t.n - 2


def mm(*ts):
    """product of (stacks of) square matrices"""
    r = ts[0]
    for t in ts[1:]:
        r = mm2(r, t)
    return r


def mm2(x, y):
    l = tf.fresh()
    nb = max(x.n, y.n) - 2
    bi = list(range(nb))
    out = bi + [nb, nb + 1]
    dims = (x.dims[:-2] if x.n > y.n else y.dims[:-2]) + (x.dims[-2], y.dims[-1])
    return bt([(x, (bi if x.n > 2 else []) + [nb, l]), (y, (bi if y.n > 2 else []) + [l, nb + 1])], out, dims, {l: x.dims[-1]})


def H(t):
    return tf.herm_T(t)


def herm(t):
    return tf.scale_T(tf.add_T(t, H(t)), HALF)


def trace(t):
    """trace of each matrix of a stack"""
    nb = t.n - 2
    l = tf.fresh()
    return bt([(t, list(range(nb)) + [l, l])], list(range(nb)), t.dims[:-2], {l: t.dims[-1]})


def retr_trace(x, y):
    """Re trace(x^H y), summed over a stack"""
    bs = [tf.fresh() for _ in x.dims]
    s = bt([(tf.conj_T(x), bs), (y, bs)], [], (), dict(zip(bs, x.dims)))
    return tf.real_part(s)


def per(t, s):
    """scale each matrix of the stack t by the entry of s"""
    nb = t.n - 2
    bi = list(range(nb))
    return bt([(s, bi), (t, bi + [nb, nb + 1])], bi + [nb, nb + 1], t.dims, {})


def inv(t):
    return tf.mpow(t, R.const(-1))


def unit_det(t):
    d = tf.det_T(t)
    return per(t, tf.tpow(d, R.div(R.const(-1), t.dims[-1])))


# ------------------------------------------------------------ manifolds
class Man:
    """one manifold with k points; gives generic points and tangent vectors"""

    def __init__(self, id, cls, k=None, dim=p, tag=""):
        self.id, self.cls, self.k, self.dim, self.tag = id, cls, k, dim, tag

    def make(self, it):
        return it.call(it.get(MAN, self.cls), [npm.num(self.dim)], {} if self.k is None else {"k": npm.num(self.k)})

    @property
    def dims(self):
        if self.cls == "StrictlyPositiveVectors":
            return (self.dim, I1 if self.k is None else self.k)
        return ((self.k,) if self.k is not None else ()) + (self.dim, self.dim)

    @property
    def cplx(self):
        return self.cls != "StrictlyPositiveVectors"

    def point(self, name):
        name += self.tag
        if not self.cplx:
            return leafT(name, self.dims, real=True, pos=True)
        x = leafT(name, self.dims, real=False, herm=True, psd=True, inv=True)
        return unit_det(x) if self.cls.startswith("Special") else x

    def ambient(self, name, herm=False):
        return leafT(name + self.tag, self.dims, real=not self.cplx, **({"herm": True} if herm and self.cplx else {}))

    def tangent(self, name, x):
        u = self.ambient(name, True)
        if self.cls.startswith("Special"):
            u = tf.sub_T(u, per(x, tf.scale_T(trace(mm(inv(x), u)), R.inv(self.dim))))
        return u

    def where(self, prog, meth):
        return member(prog, self.cls, meth)


def member(prog, cls, meth):
    import ast
    for nd in prog.src(MAN).tree.body:
        if isinstance(nd, ast.ClassDef) and nd.name == cls:
            for f in nd.body:
                if isinstance(f, ast.FunctionDef) and f.name == meth:
                    return "robuststats/models/manifolds.py:%s.%s:%d" % (cls, meth, f.lineno)
    return anchor(prog, MAN, cls)


def singles():
    for cls, nm in (("StrictlyPositiveVectors", "positive vectors"), ("HermitianPositiveDefinite", "HPD matrices"),
                    ("SpecialHermitianPositiveDefinite", "unit-determinant HPD matrices")):
        for k, s in ((None, ""), (TWO, ", k=2"), (KK, ", any k>=2")):
            yield Man(nm + s, cls, k)


def A(it, t, cplx=True):
    return arr(it, t, cplx)


def op(it, mf, M, meth, *ts):
    r = it.call(it.getattr(M, meth), [A(it, t, mf.cplx) for t in ts], {})
    if not isinstance(r, interp.Arr):
        raise tf.Unsupported("%s gives %r" % (meth, r))
    return r.t


def study(rep, prog, name, where, build, judge):
    def go():
        qs = explore(prog, build)
        rs = [q for q in qs if q.outcome == "return"]
        if not rs:
            rep.ob(name, False, where, "no path returns: %s" % [exc_name(q) for q in qs][:3])
        for q in qs:
            if q.outcome == "raise":
                rep.ob(name, False, where, "raises %s" % exc_name(q))
        for q in rs:
            judge(q.result)
    rep.guard(name, go, where)


def eq(rep, name, where, x, y, dims=None, magnitudes=True):
    if [str(s) for s in tf.flat(x).dims] != [str(s) for s in tf.flat(y).dims]:
        rep.ob(name, False, where, "shape %s instead of %s" % (x.shape, y.shape))
        return False
    ok, how, det = same(x, y, dims=dims or GD, magnitudes=magnitudes)
    rep.ob(name, ok, where, det, how)
    return ok


def zero(x):
    return tf.scale_T(x, 0)


def const(x, v):
    return tf.const_T(x.dims, R.const(v))


def is_point(rep, nm, w, mf, r, roots=()):
    """r lies on the manifold; roots: forms known to be positive definite"""
    if tuple(tf.flat(r).dims) != tuple(mf.dims):
        rep.ob(nm + ": shape", False, w, "%s instead of %s" % (r.shape, mf.dims))
        return
    if not mf.cplx:
        ok = tf.nonneg(r)
        ok, how = (True, "") if ok else positive_by(r, roots, False)
        rep.ob(nm + ": positive", ok, w, how, "sign analysis")
        return
    eq(rep, nm + ": Hermitian", w, r, H(r))
    ok = bool(tf.psd(r))
    ok, how = (True, "") if ok else positive_by(r, roots)
    rep.ob(nm + ": positive definite", ok, w, how, "definiteness analysis")
    if mf.cls.startswith("Special"):
        d = tf.det_T(r)
        eq(rep, nm + ": determinant one", w, d, const(d, 1))


def positive_by(r, roots, matrix=True):
    for x in roots:
        if [str(s) for s in tf.flat(x).dims] == [str(s) for s in tf.flat(r).dims] and same(r, x, dims=GD)[0]:
            return True, ""
    import numev
    bad = numev.negative(r, GD, matrix)
    return (False, bad) if bad else (None, "definiteness not derived")


def is_tangent(rep, nm, w, mf, x, u):
    if tuple(tf.flat(u).dims) != tuple(mf.dims):
        rep.ob(nm + ": shape", False, w, "%s instead of %s" % (u.shape, mf.dims))
        return
    if not mf.cplx:
        rep.ob(nm + ": real", tf.is_real(u), w, "")
        return
    eq(rep, nm + ": Hermitian", w, u, H(u))
    if mf.cls.startswith("Special"):
        t = trace(mm(inv(x), u))
        eq(rep, nm + ": trace(x^-1 u) = 0", w, t, zero(t))


def geodesic_point(mf, x, u):
    """closed form of exp"""
    if not mf.cplx:
        return tf.mul_T(x, tf.fn("exp", [tf.mul_T(tf.tpow(x, R.const(-1)), u)]))
    s, i = tf.mpow(x, HALF), tf.mpow(x, R.neg(HALF))
    e = mm(s, tf.mfun(mm(i, u, i), tf.fn("exp", [tf.fun_var()])), s)
    return unit_det(e) if mf.cls.startswith("Special") else e


def second_order(mf, x, u):
    """x/2 + (x+u) x^-1 (x+u) / 2: a sum of two positive definite terms"""
    if not mf.cplx:
        y = tf.add_T(x, u)
        return tf.scale_T(tf.add_T(x, tf.mul_T(tf.mul_T(y, y), tf.tpow(x, R.const(-1)))), HALF)
    y = tf.add_T(x, u)
    r = tf.scale_T(tf.add_T(x, mm(y, inv(x), y)), HALF)
    return unit_det(r) if mf.cls.startswith("Special") else r


def per_manifold(rep, f, items=None):
    def one(sub, mf):
        prog = Program()
        sub.progs.append(prog)
        f(sub, prog, mf)
    rep.parallel(list(items if items is not None else singles()), one)


@check("G01")
def g01():
    rep = Report("G01", "Each operation of the three manifolds is interpreted on a generic point and tangent vector (k absent, 2 and "
                 "any k>=2); the normal form of the result is compared with its conjugate transpose, its determinant or trace with "
                 "the constraint, and its definiteness derived from its structure.")

    def one(rep, prog, mf):
        def go(meth, args, judge, setup=()):
            w = mf.where(prog, meth)
            nm = "%s: %s" % (mf.id, meth)

            def build(it):
                M = mf.make(it)
                x = mf.point("x")
                y = mf.point("y")
                u = mf.tangent("u", x)
                g = mf.ambient("G")
                env = {"x": x, "y": y, "u": u, "g": g, "h": mf.ambient("E")}
                env["r"] = op(it, mf, M, meth, *[env[a] for a in args])
                env["again"] = lambda: None
                if meth == "proj":
                    env["rr"] = op(it, mf, M, "proj", x, env["r"])
                    env["ru"] = op(it, mf, M, "proj", x, u)
                if meth == "randvec":
                    env["nr"] = op(it, mf, M, "norm", x, env["r"])
                return env
            study(rep, prog, nm, w, build, lambda e: judge(nm, w, e))
        pt = lambda nm, w, e: is_point(rep, nm, w, mf, e["r"], [geodesic_point(mf, e["x"], e["u"]), second_order(mf, e["x"], e["u"])])
        go("exp", "xu", pt)
        go("retr", "xu", pt)
        go("rand", "", lambda nm, w, e: is_point(rep, nm, w, mf, e["r"]))
        tg = lambda nm, w, e: is_tangent(rep, nm, w, mf, e["x"], e["r"])

        def pj(nm, w, e):
            tg(nm, w, e)
            eq(rep, nm + ": idempotent", w, e["rr"], e["r"])
            eq(rep, nm + ": a tangent vector is its own projection", w, e["ru"], e["u"])
        go("proj", "xg", pj)
        go("egrad2rgrad", "xg", tg)
        go("log", "xy", tg)
        if not mf.cls.startswith("Special"):
            go("ehess2rhess", "xghu", tg)
        go("zerovec", "x", lambda nm, w, e: (tg(nm, w, e), eq(rep, nm + ": zero", w, e["r"], zero(e["r"]))))
        go("transp", "xyu", lambda nm, w, e: is_tangent(rep, nm, w, mf, e["y"], e["r"]))

        def rv(nm, w, e):
            tg(nm, w, e)
            eq(rep, nm + ": unit norm", w, e["nr"], const(e["nr"], 1))
        go("randvec", "x", rv)
    per_manifold(rep, one)
    rep.assumptions.append("random draws are generic (the events where a random tangent vector is zero or a random matrix singular "
                           "have probability zero)")
    return rep


# ------------------------------------------------------------------ G02, G03
def congruence(mf):
    """(on points and tangent vectors, on Euclidean gradients)"""
    if not mf.cplx:
        s = leafT("s", mf.dims, real=True, pos=True)
        return (lambda t: tf.mul_T(s, t)), (lambda t: tf.mul_T(tf.tpow(s, R.const(-1)), t))
    W = leafT("W", (mf.dim, mf.dim), real=False, inv=True)
    if mf.cls.startswith("Special"):                      # |det W| = 1
        f = tf.tpow(tf.mul_T(tf.det_T(W), tf.conj_T(tf.det_T(W))), R.div(R.const(-1), R.mul(TWO, mf.dim)))
        W = bt([(f, []), (W, [0, 1])], [0, 1], W.dims, {})
    V = inv(W)
    return (lambda t: mm(W, t, H(W))), (lambda t: mm(H(V), t, V))


@check("G02")
def g02():
    rep = Report("G02", "inner, norm, dist, exp, log, retr, transp and the gradient conversion of each manifold are interpreted on "
                 "generic points and tangent vectors and on their images under a generic congruence (elementwise scaling for "
                 "positive vectors, |det W|=1 for the special manifold); the two results are compared.")

    def one(rep, prog, mf):
        def go(meth, args, image, extra=None):
            w = mf.where(prog, meth)
            nm = "%s: %s" % (mf.id, meth)
            C, D = congruence(mf)

            def build(it):
                M = mf.make(it)
                x, y = mf.point("x"), mf.point("y")
                env = {"x": x, "y": y, "u": mf.tangent("u", x), "v": mf.tangent("v", x), "G": mf.ambient("G", True)}
                to = {a: (D if a == "G" else C)(env[a]) for a in env}
                run = lambda meth, *ts: op(it, mf, M, meth, *ts)
                r = run(meth, *[env[a] for a in args])
                ri = run(meth, *[to[a] for a in args])
                env.update(r=r, ri=ri, want={"same": lambda: r, "moves": lambda: C(r)}[image]())
                if extra:
                    env["extra"] = extra(run, env)
                return env

            def judge(e):
                eq(rep, nm + (": unchanged by a congruence" if image == "same" else ": commutes with a congruence"), w, e["ri"], e["want"])
                for what, a, b in e.get("extra", ()):
                    eq(rep, nm + ": " + what, w, a, b)
            study(rep, prog, nm, w, build, judge)
        go("inner", "xuv", "same", lambda run, e: [("symmetric", e["r"], run("inner", e["x"], e["v"], e["u"]))])
        go("norm", "xu", "same", lambda run, e: [("squared is inner(u, u)", tf.mul_T(e["r"], e["r"]), run("inner", e["x"], e["u"], e["u"]))])
        go("dist", "xy", "same", lambda run, e: [
            ("symmetric", e["r"], run("dist", e["y"], e["x"])),
            ("zero on equal points", run("dist", e["x"], e["x"]), zero(e["r"])),
            ("is the norm of log", e["r"], run("norm", e["x"], run("log", e["x"], e["y"])))])
        for meth, args in (("exp", "xu"), ("log", "xy"), ("retr", "xu"), ("transp", "xyu"), ("egrad2rgrad", "xG")):
            go(meth, args, "moves")
        w = mf.where(prog, "transp")

        def iso(it):
            M = mf.make(it)
            x, y = mf.point("x"), mf.point("y")
            u, v = mf.tangent("u", x), mf.tangent("v", x)
            run = lambda meth, *ts: op(it, mf, M, meth, *ts)
            return {"l": run("inner", y, run("transp", x, y, u), run("transp", x, y, v)), "r": run("inner", x, u, v),
                    "b": run("transp", y, x, run("transp", x, y, u)), "u": u}

        def judge(e):
            eq(rep, "%s: parallel transport is an isometry" % mf.id, w, e["l"], e["r"])
            eq(rep, "%s: transporting there and back is the identity" % mf.id, w, e["b"], e["u"])
        study(rep, prog, "%s: transp" % mf.id, w, iso, judge)
    per_manifold(rep, one)
    return rep


def christoffel(mf, x, u, v):
    if not mf.cplx:
        return tf.mul_T(tf.mul_T(u, v), tf.tpow(x, R.const(-1)))
    i = inv(x)
    return tf.scale_T(tf.add_T(mm(u, i, v), mm(v, i, u)), HALF)


def slope(f, h=R.const(interp.Fraction(1, 1000))):
    """derivative of f at 0, a Richardson quotient of order h^6"""
    def q(s):
        return tf.scale_T(tf.sub_T(f(s), f(R.neg(s))), R.inv(R.mul(TWO, s)))
    a, b, c_ = q(h), q(R.mul(h, HALF)), q(R.mul(h, R.mul(HALF, HALF)))
    F = lambda z: R.const(interp.Fraction(*z))
    d1 = tf.sub_T(tf.scale_T(b, F((4, 3))), tf.scale_T(a, F((1, 3))))
    d2 = tf.sub_T(tf.scale_T(c_, F((4, 3))), tf.scale_T(b, F((1, 3))))
    return tf.sub_T(tf.scale_T(d2, F((16, 15))), tf.scale_T(d1, F((1, 15))))


def curvature(f, h=R.const(interp.Fraction(1, 50))):
    """second derivative of f at 0, a Richardson quotient of order h^6"""
    f0 = tf.scale_T(f(R.ZERO), TWO)

    def q(s):
        return tf.scale_T(tf.sub_T(tf.add_T(f(s), f(R.neg(s))), f0), R.inv(R.mul(s, s)))
    a, b, c_ = q(h), q(R.mul(h, HALF)), q(R.mul(h, R.mul(HALF, HALF)))
    F = lambda z: R.const(interp.Fraction(*z))
    d1 = tf.sub_T(tf.scale_T(b, F((4, 3))), tf.scale_T(a, F((1, 3))))
    d2 = tf.sub_T(tf.scale_T(c_, F((4, 3))), tf.scale_T(b, F((1, 3))))
    return tf.sub_T(tf.scale_T(d2, F((16, 15))), tf.scale_T(d1, F((1, 15))))


@check("G03")
def g03():
    rep = Report("G03", "Compositions log(x, exp(x,u)) and exp(x, log(x,y)), values at zero and on equal points, the gradient and "
                 "Hessian conversions paired with the metric, and the derivative of retr at zero, each as a form in a generic point "
                 "and tangent vectors.")

    def one(rep, prog, mf):
        def go(nm, meth, f, magnitudes=True):
            w = mf.where(prog, meth)

            def build(it):
                M = mf.make(it)
                x, y = mf.point("x"), mf.point("y")
                e = {"x": x, "y": y, "u": mf.tangent("u", x), "v": mf.tangent("v", x), "G": mf.ambient("G"), "E": mf.ambient("E")}
                return f(lambda meth, *ts: op(it, mf, M, meth, *ts), **e)
            study(rep, prog, "%s: %s" % (mf.id, nm), w, build, lambda p_: eq(rep, "%s: %s" % (mf.id, nm), w, p_[0], p_[1], magnitudes=magnitudes))
        go("log(x, exp(x,u)) = u", "log", lambda run, x, u, **_: (run("log", x, run("exp", x, u)), u))
        go("exp(x, log(x,y)) = y", "exp", lambda run, x, y, **_: (run("exp", x, run("log", x, y)), y))
        go("log(x,x) = 0", "log", lambda run, x, **_: (run("log", x, x), zero(x)))
        go("exp(x,0) = x", "exp", lambda run, x, **_: (run("exp", x, zero(x)), x))
        go("retr(x,0) = x", "retr", lambda run, x, **_: (run("retr", x, zero(x)), x))
        go("retr leaves x in the direction u", "retr",
           lambda run, x, u, **_: (slope(lambda s: run("retr", x, tf.scale_T(u, s))), u), False)
        go("retr agrees with exp to second order", "retr",
           lambda run, x, u, **_: (curvature(lambda s: run("retr", x, tf.scale_T(u, s))), christoffel(mf, x, u, u)), False)
        go("dist(x, exp(x,u)) = norm(x,u)", "dist", lambda run, x, u, **_: (run("dist", x, run("exp", x, u)), run("norm", x, u)))

        def total(t):
            """the metric of a stack of positive vectors is reported per column; the pairing is its sum"""
            bs = [tf.fresh() for _ in t.dims]
            return bt([(t, bs)], [], (), dict(zip(bs, t.dims)))
        go("inner(grad, u) = Re tr(G^H u)", "egrad2rgrad",
           lambda run, x, u, G, **_: (total(run("inner", x, run("egrad2rgrad", x, G), u)), retr_trace(G, u)))
        if not mf.cls.startswith("Special"):
            go("inner(hess[u], v) = Re tr(E^H v) + Re tr(G^H Gamma(u,v))", "ehess2rhess",
               lambda run, x, u, v, G, E, **_: (total(run("inner", x, run("ehess2rhess", x, G, E, u), v)),
                                                tf.add_T(retr_trace(E, v), retr_trace(G, christoffel(mf, x, u, v)))))
    per_manifold(rep, one)
    return rep


# ------------------------------------------------------------------ G04, G05
W1, W2 = R.sym("w1"), R.sym("w2")


class Prod:
    """a product of manifolds with two factors"""

    def __init__(self, id, cls, factors, weights, make):
        self.id, self.cls, self.factors, self.weights, self.make = id, cls, factors, weights, make

    def points(self, name):
        return [f.point(name) for f in self.factors]

    def tangents(self, name, xs):
        return [f.tangent(name, x) for f, x in zip(self.factors, xs)]

    def ambients(self, name, herm=False):
        return [f.ambient(name, herm) for f in self.factors]

    def wrap(self, it, ts):
        return [A(it, t, f.cplx) for f, t in zip(self.factors, ts)]


def weighted(pairs):
    out = []
    for k in (None, TWO, KK):
        for nm, c1, c2 in pairs:
            fs = [Man("1", c1, k, a, "1"), Man("2", c2, k, b, "2")]

            def make(it, fs=fs, ms=None):
                ws = [Arr(tf.scalar(W1), "f", py=True), Arr(tf.scalar(W2), "f", py=True)]
                return it.call(it.get(MAN, "WeightedProduct"), [[f.make(it) for f in fs], ws], {})

            def plain(it, fs=fs):
                return it.call(it.get(MAN, "WeightedProduct"), [[f.make(it) for f in fs]], {})
            s = "" if k is None else ", k=2" if k is TWO else ", any k>=2"
            out.append(Prod("weighted product of %s%s" % (nm, s), "WeightedProduct", fs, [W1, W2], make))
            if k is None:
                out.append(Prod("product of %s without weights" % nm, "WeightedProduct", fs, [I1, I1], plain))
    return out


def elliptical():
    out = []
    al = R.sym("alpha")
    for k in (None, TWO, KK):
        fs = [Man("A", "SpecialHermitianPositiveDefinite", k, a, "1"), Man("B", "HermitianPositiveDefinite", k, b, "2")]

        def make(it, k=k):
            return it.call(it.get(MAN, "KroneckerHermitianPositiveElliptical"),
                           [npm.num(a), npm.num(b), Arr(tf.scalar(al), "f", py=True)], {} if k is None else {"k": npm.num(k)})
        s = "" if k is None else ", k=2" if k is TWO else ", any k>=2"
        out.append(Prod("Kronecker elliptical" + s, "KroneckerHermitianPositiveElliptical", fs, [R.mul(al, b), R.mul(al, a)], make))
    return out


def T_(v):
    if isinstance(v, interp.Arr):
        return v.t
    raise tf.Unsupported("%r is not an array" % (v,))


def total(t):
    if t.n == 0:
        return t
    bs = [tf.fresh() for _ in t.dims]
    return bt([(t, bs)], [], (), dict(zip(bs, t.dims)))


def pcall(it, P, M, meth, *groups):
    return it.call(it.getattr(M, meth), [P.wrap(it, g) for g in groups], {})


def parts(v, k=2):
    if not isinstance(v, (list, tuple)) and not (isinstance(v, Inst)):
        raise tf.Unsupported("%r is not a product vector" % (v,))
    return v


def items(it, v, k=2):
    return [T_(it.getitem(v, i)) for i in range(k)]


@check("G04")
def g04():
    rep = Report("G04", "Every operation of a weighted product of two manifolds with weights of their own is compared with the "
                 "operations of its factors, each on its own point, vector and weight (two HPD factors of different sizes, HPD with "
                 "positive vectors in both orders, special with HPD).")
    H_, S_, V_ = "HermitianPositiveDefinite", "SpecialHermitianPositiveDefinite", "StrictlyPositiveVectors"

    def one(rep, prog, P):
        def fac(it, meth, *groups):
            return [op(it, f, f.make(it), meth, *[g[i] for g in groups]) for i, f in enumerate(P.factors)]

        def go(nm, meth, f):
            w = member(prog, P.cls, meth)
            study(rep, prog, "%s: %s" % (P.id, nm), w,
                  lambda it: f(it, P.make(it)),
                  lambda ps: [eq(rep, "%s: %s%s" % (P.id, nm, "" if len(ps) == 1 else " (factor %d)" % (i + 1)), w, x, y)
                              for i, (x, y) in enumerate(ps)])
        X, Y = P.points("x"), P.points("y")
        U, V = P.tangents("u", X), P.tangents("v", X)
        G, E = P.ambients("G"), P.ambients("E")
        wsum = lambda vs: tf.add_T(tf.scale_T(total(vs[0]), P.weights[0]), tf.scale_T(total(vs[1]), P.weights[1]))
        sq = lambda vs: [tf.mul_T(v, v) for v in vs]
        if not any(not f.cplx and f.k is not None for f in P.factors):
            go("inner is the weighted sum", "inner", lambda it, M: [(total(T_(pcall(it, P, M, "inner", X, U, V))), wsum(fac(it, "inner", X, U, V)))])
            go("dist^2 is the weighted sum", "dist", lambda it, M: [(tf.tpow(T_(pcall(it, P, M, "dist", X, Y)), TWO), wsum(sq(fac(it, "dist", X, Y))))])
            go("norm^2 is inner", "norm", lambda it, M: [(tf.tpow(T_(pcall(it, P, M, "norm", X, U)), TWO), T_(pcall(it, P, M, "inner", X, U, U)))])

            def unit(it, M):
                x = P.wrap(it, X)
                u = it.call(it.getattr(M, "randvec"), [x], {})
                t = T_(it.call(it.getattr(M, "norm"), [x, u], {}))
                return [(t, const(t, 1))]
            go("randvec is a unit vector", "randvec", unit)
        iw = [R.inv(w_) for w_ in P.weights]
        sc = lambda vs: [tf.scale_T(v, w_) for v, w_ in zip(vs, iw)]
        go("gradient conversion divides by the weight", "egrad2rgrad",
           lambda it, M: list(zip(items(it, pcall(it, P, M, "egrad2rgrad", X, G)), sc(fac(it, "egrad2rgrad", X, G)))))
        if not any(f.cls == S_ for f in P.factors):
            go("Hessian conversion divides by the weight", "ehess2rhess",
               lambda it, M: list(zip(items(it, pcall(it, P, M, "ehess2rhess", X, G, E, U)), sc(fac(it, "ehess2rhess", X, G, E, U)))))
        for meth, gs in (("exp", (X, U)), ("retr", (X, U)), ("log", (X, Y)), ("proj", (X, G)), ("transp", (X, Y, U)), ("zerovec", (X,))):
            go("%s acts factor by factor" % meth, meth,
               lambda it, M: list(zip(items(it, pcall(it, P, M, meth, *gs)), fac(it, meth, *gs))))
    rep.parallel(weighted([("HPD and HPD", H_, H_), ("HPD and positive vectors", H_, V_), ("positive vectors and HPD", V_, H_),
                           ("special and HPD", S_, H_)]),
                 lambda sub, P: (lambda prog: (sub.progs.append(prog), one(sub, prog, P)))(Program()))
    return rep


@check("G05")
def g05():
    rep = Report("G05", "The inner product, norm, distance, random vector and gradient conversion of the Kronecker elliptical manifold "
                 "are compared with the documented metric for generic factors, alpha and k.")
    al = R.sym("alpha")

    def metric(P, X, U, V):
        ia, ib = inv(X[0]), inv(X[1])
        beta = R.mul(R.sub(al, I1), R.mul(a, a))
        r = tf.scale_T(total(trace(mm(ia, U[0], ia, V[0]))), R.mul(al, b))
        r = tf.add_T(r, tf.scale_T(total(trace(mm(ib, U[1], ib, V[1]))), R.mul(al, a)))
        return tf.add_T(r, tf.scale_T(total(tf.mul_T(trace(mm(ib, U[1])), trace(mm(ib, V[1])))), beta))

    def one(rep, prog, P):
        def go(nm, meth, f):
            w = member(prog, P.cls, meth)
            study(rep, prog, "%s: %s" % (P.id, nm), w, lambda it: f(it, P.make(it)),
                  lambda p_: eq(rep, "%s: %s" % (P.id, nm), w, p_[0], p_[1]))
        X, Y = P.points("x"), P.points("y")
        U, V = P.tangents("u", X), P.tangents("v", X)
        G = P.ambients("G")
        go("inner is the documented metric", "inner", lambda it, M: (T_(pcall(it, P, M, "inner", X, U, V)), metric(P, X, U, V)))
        go("inner is symmetric", "inner", lambda it, M: (T_(pcall(it, P, M, "inner", X, U, V)), T_(pcall(it, P, M, "inner", X, V, U))))

        def grad(it, M):
            x = P.wrap(it, X)
            g = it.call(it.getattr(M, "egrad2rgrad"), [x, P.wrap(it, G)], {})
            t = T_(it.call(it.getattr(M, "inner"), [x, g, P.wrap(it, U)], {}))
            return t, tf.add_T(retr_trace(G[0], U[0]), retr_trace(G[1], U[1]))
        go("inner(grad, u) = Re tr(G_A^H u_A) + Re tr(G_B^H u_B)", "egrad2rgrad", grad)

        def tang(i):
            def f(it, M):
                x = P.wrap(it, X)
                g = T_(it.getitem(it.call(it.getattr(M, "egrad2rgrad"), [x, P.wrap(it, G)], {}), i))
                return g, H(g)
            return f
        go("the gradient of A is Hermitian", "egrad2rgrad", tang(0))
        go("the gradient of B is Hermitian", "egrad2rgrad", tang(1))

        def unit(it, M):
            x = P.wrap(it, X)
            u = it.call(it.getattr(M, "randvec"), [x], {})
            t = T_(it.call(it.getattr(M, "norm"), [x, u], {}))
            return t, const(t, 1)
        go("randvec is a unit vector", "randvec", unit)

        def dist(it, M):
            x, y = P.wrap(it, X), P.wrap(it, Y)
            l = it.call(it.getattr(M, "log"), [x, y], {})
            return T_(it.call(it.getattr(M, "dist"), [x, y], {})), T_(it.call(it.getattr(M, "norm"), [x, l], {}))
        go("dist is the norm of log", "dist", dist)
        go("dist is symmetric", "dist", lambda it, M: (T_(pcall(it, P, M, "dist", X, Y)), T_(pcall(it, P, M, "dist", Y, X))))
    rep.parallel(elliptical(), lambda sub, P: (lambda prog: (sub.progs.append(prog), one(sub, prog, P)))(Program()))
    rep.assumptions.append("alpha is such that the metric is positive definite (alpha a + (alpha-1) a^2 b > 0)")
    return rep


@check("G06")
def g06():
    rep = Report("G06", "The dimension every manifold publishes, as a polynomial in n, k, a and b, is compared with the dimension of its "
                 "tangent space counted from the shape and the constraints of its points.")
    prog = Program()
    rep.progs.append(prog)

    def true_dim(mf):
        k, d = (I1 if mf.k is None else mf.k), mf.dim
        sq = R.mul(d, d)
        return R.mul(k, d if not mf.cplx else sq if mf.cls.startswith("Herm") else R.sub(sq, I1))

    def go(nm, w, make, want):
        def build(it):
            return it.getattr(make(it), "dim")
        study(rep, prog, nm, w, build, lambda v: rep.ob(nm, to_T(v) is not None and tf.flat(to_T(v)) == tf.scalar(want), w,
                                                        "%s instead of %s" % (tf.show(to_T(v)) if to_T(v) is not None else v, want)))
    for mf in list(singles()) + [Man("positive vectors of a concrete size", "StrictlyPositiveVectors", R.const(3), R.const(4)),
                                 Man("HPD matrices of a concrete size", "HermitianPositiveDefinite", R.const(3), R.const(4)),
                                 Man("unit-determinant matrices of a concrete size", "SpecialHermitianPositiveDefinite", R.const(3), R.const(4))]:
        go("%s: dim" % mf.id, mf.where(prog, "__init__"), mf.make, true_dim(mf))
    for P in weighted([("HPD and positive vectors", "HermitianPositiveDefinite", "StrictlyPositiveVectors")]) + elliptical():
        go("%s: dim" % P.id, member(prog, P.cls, "__init__"), P.make, R.add(true_dim(P.factors[0]), true_dim(P.factors[1])))
    return rep
