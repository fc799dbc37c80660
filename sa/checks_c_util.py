"""U01-U05, X01, O01: utilities, generators, online estimation."""
import ast
import os
import rat as R
import tf
import interp
import npm
import ext
from interp import Inst, Opaque, Native
from world import *
from chk import Report, same
from checks_c_struct import anchor, exc_name
from checks_c_geom import bt, mm, H, eq, study, KK, TWO
from relate import to_T

CHECKS = {}
UD = [{"p": 2, "n": 3, "N": 3, "kk": 2, "m": 1}, {"p": 3, "n": 2, "N": 2, "kk": 1, "m": 2}]


def check(pid):
    def d(f):
        CHECKS[pid] = f
        return f
    return d


def T_(v):
    t = to_T(v)
    if t is None:
        raise tf.Unsupported("%r is not an array" % (v,))
    return t


def call(it, mod, name, *args, **kw):
    return it.call(it.get(mod, name), list(args), kw)


def I_(d):
    return tf.eye(d)


# ------------------------------------------------------------------ U01
BOXDIR = None


def autograd_tables():
    """(names autograd can differentiate through, attributes of a traced array), read from the installed autograd"""
    diff, box = set(), set()
    d = os.path.join(interp.SITE, "autograd", "numpy")
    for f in ("numpy_vjps.py", "linalg.py", "fft.py", "numpy_wrapper.py", "numpy_boxes.py"):
        with open(os.path.join(d, f), encoding="utf-8") as h:
            tree = ast.parse(h.read())
        for nd in ast.walk(tree):
            if isinstance(nd, ast.Call) and isinstance(nd.func, ast.Name) and nd.func.id.startswith("def"):
                for a in nd.args[:1]:
                    diff.add(a.attr if isinstance(a, ast.Attribute) else a.id if isinstance(a, ast.Name) else "")
            if isinstance(nd, ast.Assign) and isinstance(nd.value, (ast.List, ast.Tuple)) and f != "numpy_boxes.py":
                if any(isinstance(t, ast.Name) and "nograd" in t.id for t in nd.targets):
                    for e in nd.value.elts:
                        if isinstance(e, ast.Attribute):
                            diff.add(e.attr)
            if isinstance(nd, ast.FunctionDef):
                diff.add(nd.name)
        if f == "numpy_boxes.py":
            for nd in ast.walk(tree):
                if isinstance(nd, ast.ClassDef) and nd.name == "ArrayBox":
                    for b in ast.walk(nd):
                        if isinstance(b, ast.FunctionDef):
                            box.add(b.name)
                        elif isinstance(b, ast.Assign):
                            box |= {t.id for t in b.targets if isinstance(t, ast.Name)}
                elif isinstance(nd, (ast.List, ast.Tuple)):
                    box |= {e.value for e in nd.elts if isinstance(e, ast.Constant) and isinstance(e.value, str)}
    return diff, box


# functions of plain numpy that hand a foreign object to the method of the same name
DISPATCH = {"sum", "prod", "max", "min", "amax", "amin", "mean", "std", "var", "transpose", "reshape", "repeat", "swapaxes", "squeeze",
            "take", "clip", "cumsum", "shape", "ndim", "size", "result_type", "iscomplexobj", "isrealobj"}


# numpy ufuncs: called on a traced value they reach autograd's wrapper when ArrayBox defines __array_ufunc__
UFUNCS = set("""add subtract multiply divide true_divide floor_divide negative power float_power remainder mod fmod absolute fabs abs sign
conj conjugate exp exp2 log log2 log10 expm1 log1p sqrt square cbrt reciprocal sin cos tan arcsin arccos arctan arctan2 sinh cosh tanh
arcsinh arccosh arctanh maximum minimum fmax fmin logaddexp logaddexp2 matmul greater greater_equal less less_equal equal not_equal
isfinite isinf isnan""".split())


@check("U01")
def u01():
    rep = Report("U01", "Every function with an autograd switch is interpreted with its matrix argument traced: each operation met on a "
                 "traced value, in the function and in everything it calls, has to be one that autograd's own tables can propagate; "
                 "without the switch no operation of autograd's backend is met; and both modes give the same form.")
    prog = Program()
    rep.progs.append(prog)
    diff, box = autograd_tables()
    rep.extra["differentiable_functions"] = len(diff)

    def faults(evs):
        bad = []
        for e in evs:
            if e.kind == "np" and e.traced:
                if not e.mod.startswith("autograd"):
                    if e.name not in DISPATCH and not (e.mod == "numpy" and e.name in UFUNCS and "__array_ufunc__" in box
                                                       and e.name in diff):
                        bad.append("%s.%s on a traced value" % (e.mod, e.name))
                elif e.name not in diff:
                    bad.append("%s.%s has no derivative" % (e.mod, e.name))
            elif e.kind == "boxattr" and e.name not in box:
                bad.append("attribute %s of a traced value" % e.name)
            elif e.kind == "write" and (e.arr.tr or e.base.tr):
                bad.append("assignment into a traced value")
        return bad

    def plain(evs):
        return ["%s.%s" % (e.mod, e.name) for e in evs if e.kind == "np" and e.mod.startswith("autograd")]

    fdims = (p, p)
    cases = []
    for cx in (False, True):
        t = "complex" if cx else "real"
        C = lambda it, cx=cx: arr(it, S_T(cx, "C"), cx)
        G = lambda it, cx=cx: arr(it, leafT("G", (p, p), real=not cx), cx)
        St = lambda it, cx=cx: arr(it, leafT("G", (KK, p, p), real=not cx), cx)
        Xd = lambda it, cx=cx: arr(it, X_T(cx), cx)
        for f in ("sqrtm", "logm", "expm", "invsqrtm"):
            cases.append((LIN, f, t, [C], 0))
        cases.append((LIN, "powm", t, [C, lambda it: sym("alpha")], 0))
        cases.append((LIN, "hermitian", t, [G], 0))
        for f in ("multihconj", "multiherm"):
            cases.append((LIN, f, t + " stack", [St], 0))
            cases.append((LIN, f, t, [G], 0))
    cases.append((COST, "Tyler_cost_real", "real", [lambda it: arr(it, X_T(False), False), lambda it: arr(it, S_T(False, "C"), False)], 1))
    cases.append((COST, "Tyler_cost_complex", "complex", [lambda it: arr(it, X_T(True), True), lambda it: arr(it, S_T(True, "C"), True)], 1))

    def flag(prog, mod, f):
        for nd in ast.walk(prog.src(mod).tree):
            if isinstance(nd, ast.FunctionDef) and nd.name == f:
                return any(x.arg == "autograd" for x in nd.args.args + nd.args.kwonlyargs)
        return None
    for mod, f, tag, mk, tr in cases:
        w = anchor(prog, mod, f)
        nm = "%s (%s)" % (f, tag)
        if not flag(prog, mod, f):
            rep.ob("%s: has the switch" % nm, None, w, "no parameter autograd")
            continue

        def run(auto, trace):
            def build(it):
                xs = [g(it) for g in mk]
                xs[tr].tr = trace
                return call(it, mod, f, *xs, autograd=auto)
            return explore(prog, build)

        def go():
            a, b_ = run(True, True), run(False, False)
            for q in a + b_:
                if q.outcome != "return":
                    rep.ob("%s: returns" % nm, False, w, "raises %s" % exc_name(q))
                    return
            bad = sorted({x for q in a for x in faults(q.events)})
            rep.ob("%s: autograd=True propagates a derivative" % nm, not bad, w, "; ".join(bad), "trace of backend operations")
            bad = sorted({x for q in b_ for x in plain(q.events)})
            rep.ob("%s: autograd=False uses numpy" % nm, not bad, w, "; ".join(bad), "trace of backend operations")
            if len(a) == len(b_) == 1:
                eq(rep, "%s: both modes compute the same" % nm, w, T_(a[0].result), T_(b_[0].result), UD)
            else:
                rep.ob("%s: both modes compute the same" % nm, None, w, "several paths")
        rep.guard(nm, go, w)

    # functions given to autograd.grad by the estimators
    for cx, f in ((False, "tyler_shape_matrix_naturalgradient"), (True, "complex_tyler_shape_matrix_naturalgradient")):
        w = anchor(prog, COV, f)
        nm = "%s: the cost it differentiates" % f

        def go():
            def build(it):
                # the cost and the gradient reach the solver as callables; both are called with a generic point
                X = arr(it, X_T(cx), cx)
                call(it, COV, f, X)
                out = []
                for e in list(it.path.events):
                    if e.kind == "problem":
                        out.append(e)
                for pb in out:
                    for k in ("egrad", "euclidean_gradient", "cost"):
                        g = pb.vals.get(k)
                        if g is not None:
                            d = X.shape[-1] if not cx else R.mul(TWO, X.shape[-1])
                            Q = arr(it, leafT("Q", (d, d), real=True, herm=True, psd=True, inv=True), False)
                            it.call(g, [Q], {})
                it.mark2 = len(it.path.events)
                n_ = 0
                for e in list(it.path.events):
                    if e.kind == "autograd":
                        d = X.shape[-1] if not cx else R.mul(TWO, X.shape[-1])
                        Q = arr(it, leafT("Q", (d, d), real=True, herm=True, psd=True, inv=True), False)
                        Q.tr = True
                        it.call(e.grad.attrs["fun"], [Q], {})
                        n_ += 1
                return n_
            qs = [q for q in explore(prog, build) if q.outcome == "return"]
            if not qs or not all(q.result for q in qs):
                rep.ob(nm, None, w, "no function given to autograd.grad was found")
                return
            bad = sorted({x for q in qs for x in faults(q.events[q.interp.mark2:])})
            rep.ob(nm, not bad, w, "; ".join(bad), "trace of backend operations")
        rep.guard(nm, go, w)
    return rep


# ------------------------------------------------------------------ U03
@check("U03")
def u03():
    rep = Report("U03", "Spectral identities, Hermitian results and unitary equivariance of the matrix functions as identities between "
                 "forms in a generic real or complex positive definite matrix, generic exponents and a generic unitary matrix; "
                 "the Hermitian parts in a generic matrix or stack.")
    prog = Program()
    rep.progs.append(prog)
    al, be = R.sym("alpha"), R.sym("beta")
    tf.POS_SYMBOLS.update({"beta"})
    for cx in (False, True):
        tag = "complex" if cx else "real"
        C = S_T(cx, "C")
        U = leafT("U", (p, p), real=not cx, unitary=True, inv=True)
        Hm = leafT("Hm", (p, p), real=not cx, herm=True)
        G = leafT("G", (p, p), real=not cx)

        def fun(it, nm, x, *a):
            r = call(it, LIN, nm, arr(it, x, cx), *a)
            return T_(r)
        ex = lambda r: Arr(tf.scalar(r), "f", py=True)
        one = tf.eye(p)

        def go(nm, f, g):
            w = anchor(prog, LIN, f)
            study(rep, prog, "%s (%s)" % (nm, tag), w, g, lambda r: eq(rep, "%s (%s)" % (nm, tag), w, r[0], r[1], UD))
        go("sqrtm(C) sqrtm(C) = C", "sqrtm", lambda it: (mm(fun(it, "sqrtm", C), fun(it, "sqrtm", C)), C))
        go("invsqrtm(C) C invsqrtm(C) = I", "invsqrtm", lambda it: (mm(fun(it, "invsqrtm", C), C, fun(it, "invsqrtm", C)), one))
        go("powm(C,a) powm(C,b) = powm(C,a+b)", "powm",
           lambda it: (mm(fun(it, "powm", C, ex(al)), fun(it, "powm", C, ex(be))), fun(it, "powm", C, ex(R.add(al, be)))))
        go("powm(C,a) powm(C,-a) = I", "powm", lambda it: (mm(fun(it, "powm", C, ex(al)), fun(it, "powm", C, ex(R.neg(al)))), one))
        go("powm(powm(C,a),b) = powm(C,ab)", "powm",
           lambda it: (fun(it, "powm", fun(it, "powm", C, ex(al)), ex(be)), fun(it, "powm", C, ex(R.mul(al, be)))))
        for k, want in ((0, lambda it: one), (1, lambda it: C), (-1, lambda it: tf.mpow(C, R.const(-1))), (2, lambda it: mm(C, C)),
                        (interp.Fraction(1, 2), lambda it: fun(it, "sqrtm", C)),
                        (interp.Fraction(-1, 2), lambda it: fun(it, "invsqrtm", C))):
            go("powm(C,%s)" % k, "powm", lambda it: (fun(it, "powm", C, npm.num(R.const(k))), want(it)))
        go("expm(logm(C)) = C", "expm", lambda it: (fun(it, "expm", fun(it, "logm", C)), C))
        go("logm(expm(H)) = H", "logm", lambda it: (fun(it, "logm", fun(it, "expm", Hm)), Hm))
        go("expm(H) expm(-H) = I", "expm", lambda it: (mm(fun(it, "expm", Hm), fun(it, "expm", tf.scale_T(Hm, -1))), one))
        fs = [("sqrtm", C, ()), ("invsqrtm", C, ()), ("logm", C, ()), ("expm", Hm, ()), ("powm", C, (ex(al),)), ("powm", C, (ex(R.neg(al)),))]
        for f, x, a in fs:
            s = "%s%s" % (f, "" if not a else ", exponent %s" % tf.show(a[0].t))
            go("%s: Hermitian" % s, f, lambda it: (lambda r: (r, H(r)))(fun(it, f, x, *a)))
            go("%s: f(U C U^H) = U f(C) U^H" % s, f, lambda it: (fun(it, f, mm(U, x, H(U)), *a), mm(U, fun(it, f, x, *a), H(U))))
            go("%s: f(C) commutes with C" % s, f, lambda it: (mm(fun(it, f, x, *a), x), mm(x, fun(it, f, x, *a))))
        # on a diagonal matrix: f of each entry
        v = leafT("v", (p,), real=True, pos=True)
        D = bt([(v, [0]), (one, [0, 1])], [0, 1], (p, p), {})
        for f, x, a in fs:
            if f == "powm":
                want = lambda: tf.tpow(v, to_T(a[0]).terms[0][1])
            else:
                want = {"sqrtm": lambda: tf.tpow(v, HALF), "invsqrtm": lambda: tf.tpow(v, R.neg(HALF)),
                        "logm": lambda: tf.fn("log", [v]), "expm": lambda: tf.fn("exp", [v])}[f]
            s = "%s%s" % (f, "" if not a else ", exponent %s" % tf.show(a[0].t))
            go("%s of a diagonal matrix" % s, f,
               lambda it: (fun(it, f, D, *a), bt([(want(), [0]), (one, [0, 1])], [0, 1], (p, p), {})))

        def part(x):
            return tf.scale_T(tf.add_T(x, H(x)), HALF)
        Gs = leafT("Gs", (KK, p, p), real=not cx)
        for f, xs in (("hermitian", [G]), ("multiherm", [G, Gs])):
            for x in xs:
                s = "%s%s" % (f, " of a stack" if x.n == 3 else "")
                go("%s: (X + X^H)/2" % s, f, lambda it: (fun(it, f, x), part(x)))
                go("%s: Hermitian" % s, f, lambda it: (lambda r: (r, H(r)))(fun(it, f, x)))
                go("%s: idempotent" % s, f, lambda it: (lambda r: (fun(it, f, r), r))(fun(it, f, x)))
        for x in (G, Gs):
            s = "multihconj%s" % (" of a stack" if x.n == 3 else "")
            go("%s: conjugate transpose" % s, "multihconj", lambda it: (fun(it, "multihconj", x), H(x)))
    return rep


# ------------------------------------------------------------------ U04
@check("U04")
def u04():
    rep = Report("U04", "vec, unvec, vech and unvech on a generic matrix, Hermitian matrix or vector of symbolic size.")
    prog = Program()
    rep.progs.append(prog)
    hp = R.mul(HALF, R.mul(p, R.add(p, I1)))
    for cx in (False, True):
        tag = "complex" if cx else "real"
        M = leafT("M", (p, p), real=not cx)
        Hm = leafT("Hm", (p, p), real=not cx, herm=True)
        Rt = leafT("Mr", (p, n), real=not cx)
        v = leafT("v", (p, p), (2,), real=not cx)
        vr = leafT("vr", (hp,), real=True)

        def fun(it, nm, x, c=cx):
            return T_(call(it, LIN, nm, arr(it, x, c)))

        def go(nm, f, g, dims=UD):
            w = anchor(prog, LIN, f)
            study(rep, prog, "%s (%s)" % (nm, tag), w, g, lambda r: eqv(rep, "%s (%s)" % (nm, tag), w, r[0], r[1], dims))
        for x, s in ((M, "a square matrix"), (Rt, "a rectangular matrix")):
            go("vec stacks the columns of %s" % s, "vec",
               lambda it: ((fun(it, "vec", x)), (tf.with_sizes(tf.transpose_last(x), (2,)))))
        go("unvec(vec(M)) = M", "unvec", lambda it: (fun(it, "unvec", fun(it, "vec", M)), M))
        go("vec(unvec(v)) = v", "unvec", lambda it: ((fun(it, "vec", fun(it, "unvec", v))), v))
        go("unvech(vech(H)) = H", "unvech", lambda it: (fun(it, "unvech", fun(it, "vech", Hm)), Hm))
        go("vech(unvech(v)) = v", "vech", lambda it: ((fun(it, "vech", fun(it, "unvech", vr, False), False)), vr))
        for k in (1, 2, 3, 5):
            d = R.const(k)
            Hk = leafT("Hk", (d, d), real=not cx, herm=True)
            Mk = leafT("Mk", (d, d), real=not cx)
            go("unvec(vec(M)) = M, %d x %d" % (k, k), "unvec", lambda it: (fun(it, "unvec", fun(it, "vec", Mk)), Mk), [{}])
            go("unvech(vech(H)) = H, %d x %d" % (k, k), "unvech", lambda it: (fun(it, "unvech", fun(it, "vech", Hk)), Hk), [{}])
        w = anchor(prog, LIN, "vech")
        study(rep, prog, "vech: one entry per pair (%s)" % tag, w, lambda it: fun(it, "vech", Hm),
              lambda t: rep.ob("vech: one entry per pair (%s)" % tag, len(t.shape) == 1 and t.shape[0] == hp, w, "shape %s" % (t.shape,)))
        w = anchor(prog, LIN, "unvech")

        def kind(it):
            return call(it, LIN, "unvech", call(it, LIN, "vech", arr(it, Hm, cx)))
        study(rep, prog, "unvech keeps the field (%s)" % tag, w, kind,
              lambda r: rep.ob("unvech keeps the field (%s)" % tag, r.dt == ("c" if cx else "f"), w, "dtype kind %s" % r.dt))
    for k in (2, 3, 5, 8, 10):
        w = anchor(prog, LIN, "unvec")

        def go():
            qs = explore(prog, lambda it: call(it, LIN, "unvec", arr(it, leafT("v", (R.const(k),), real=True))))
            rep.ob("unvec refuses a vector of length %d" % k, all(q.outcome == "raise" for q in qs), w, "returns a matrix")
        rep.guard("unvec refuses a vector of length %d" % k, go, w)
    return rep


def eqv(rep, name, w, x, y, dims):
    if x.shape == y.shape and tf.flat(x).dims != tf.flat(y).dims:
        one = [(npm.prod_dims(d),) for d in ([x.dims[l] for l in ax] for ax in x.axes())]
        x, y = npm.restructure(None, x, one), npm.restructure(None, y, one)
    return eq(rep, name, w, x, y, dims)


# ------------------------------------------------------------------ U02
class Aliases(ast.NodeVisitor):
    """dotted names of what a module refers to"""

    def __init__(self, src):
        self.map = {}
        self.src = src
        self.stack = []
        self.refs = []            # (dotted, node, function qualname, call node or None)
        for nd in ast.walk(src.tree):
            if isinstance(nd, ast.Import):
                for a in nd.names:
                    if a.asname:
                        self.map[a.asname] = a.name
                    else:
                        self.map[a.name.split(".")[0]] = a.name.split(".")[0]
            elif isinstance(nd, ast.ImportFrom):
                m = nd.module or ""
                if nd.level:
                    base = src.pkg.split(".")
                    base = base[:len(base) - nd.level + 1]
                    m = ".".join(base + ([m] if m else []))
                for a in nd.names:
                    self.map[a.asname or a.name] = m + "." + a.name
                    self.refs.append((m + "." + a.name, nd, "", None))
        # plain renamings:  r = np.random
        for _ in range(3):
            for nd in ast.walk(src.tree):
                if isinstance(nd, ast.Assign) and len(nd.targets) == 1 and isinstance(nd.targets[0], ast.Name):
                    d = self.dotted(nd.value)
                    if d and d.startswith(("numpy", "scipy", "random", "os", "secrets", "uuid")):
                        self.map.setdefault(nd.targets[0].id, d)
        self.visit(src.tree)

    def dotted(self, e):
        p_ = []
        while isinstance(e, ast.Attribute):
            p_.append(e.attr)
            e = e.value
        if isinstance(e, ast.Name) and e.id in self.map:
            return ".".join([self.map[e.id]] + p_[::-1])
        return None

    def visit_FunctionDef(self, nd):
        for d in nd.decorator_list + nd.args.defaults + [x for x in nd.args.kw_defaults if x is not None]:
            self.visit(d)
        self.stack.append(nd.name)
        for s in nd.body:
            self.visit(s)
        self.stack.pop()

    def visit_ClassDef(self, nd):
        self.stack.append(nd.name)
        self.generic_visit(nd)
        self.stack.pop()

    def visit_Call(self, nd):
        d = self.dotted(nd.func)
        tail = nd.func.attr if isinstance(nd.func, ast.Attribute) else ""
        if d or tail:
            self.refs.append((d or "?." + tail, nd, ".".join(self.stack), nd))
        self.generic_visit(nd)

    def visit_Attribute(self, nd):
        d = self.dotted(nd)
        if d:
            self.refs.append((d, nd, ".".join(self.stack), None))
        self.generic_visit(nd)

    def visit_Name(self, nd):
        if isinstance(nd.ctx, ast.Load) and nd.id in self.map:
            self.refs.append((self.map[nd.id], nd, ".".join(self.stack), None))


RESEED = {"seed", "set_state", "set_bit_generator"}
PRIVATE = {"RandomState", "default_rng", "Generator", "SeedSequence", "PCG64", "PCG64DXSM", "MT19937", "Philox", "SFC64", "BitGenerator"}
ENTROPY = ("random.", "secrets.", "os.urandom", "os.getrandom", "uuid.", "time.time_ns")
MCFILE = "robuststats/utils/montecarlo.py"


def package_modules(prog):
    root = os.path.join(prog.repo, "robuststats")
    for d, _, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            if f.endswith(".py"):
                rel = os.path.relpath(os.path.join(d, f), prog.repo)
                nm = rel[:-3].replace(os.sep, ".")
                yield (nm[:-9] if nm.endswith(".__init__") else nm), rel


@check("U02")
def u02():
    rep = Report("U02", "temp_seed is interpreted around bodies that end normally, by return, break, continue and by every kind of "
                 "exception, alone and nested; every reference of the package to a random source is resolved and classified; the "
                 "generators and the random methods of the manifolds are interpreted twice in a row and have to draw anew each time.")
    prog = Program()
    rep.progs.append(prog)
    w = anchor(prog, MC, "temp_seed")

    def body(exc):
        def run(it, a, k):
            it.event("rngstate", op="body", arg=None)
            if exc:
                it.raise_(exc, "from the block")
            return 1
        return Native("body", run)

    def judge(q, seeds, exc):
        """the state after the block is the state before it, and the body ran from the seed"""
        cur, saved, ran, bad = "before", {}, [], []
        for e in q.events:
            if e.kind == "rng":
                bad.append("draws %s" % e.name)
                cur = "drawn from " + str(cur)
            if e.kind != "rngstate":
                continue
            if e.op == "get":
                saved[id(e.res)] = cur
            elif e.op == "seed":
                cur = e.arg
            elif e.op == "body":
                ran.append(cur)
                cur = ("after body", len(ran))
            elif e.op == "set":
                if id(e.arg) not in saved:
                    bad.append("restores a state that was not saved")
                cur = saved.get(id(e.arg))
        if cur != "before":
            bad.append("the generator is left %s" % ("seeded" if not isinstance(cur, tuple) else "where the block left it"))
        for x, want in zip(ran, seeds):
            same_ = x is want or isinstance(x, Arr) and isinstance(want, Arr) and x.t is want.t
            if want is not None and not same_:
                bad.append("the block does not start from the seed")
        if len(ran) != len(seeds) and exc is None:
            bad.append("the block ran %d times" % len(ran))
        if exc is None and q.outcome != "return":
            bad.append("raises %s" % exc_name(q))
        if exc is not None and (q.outcome != "raise" or exc_name(q) != exc):
            bad.append("%s becomes %s" % (exc, exc_name(q) if q.outcome == "raise" else "a normal end"))
        return bad

    for f, runs in (("seeded", 1), ("seeded_return", 1), ("seeded_break", 2), ("seeded_nested", 2)):
        for exc in (None, "ValueError", "RuntimeError", "KeyboardInterrupt", "SystemExit", "GeneratorExit"):
            nm = "temp_seed: %s, %s" % (f.replace("_", " "), exc or "normal end")

            def go():
                def build(it):
                    it.s1, it.s2 = sym("seed", "i"), sym("seed2", "i")
                    args = [it.s1] + ([it.s2] if f == "seeded_nested" else []) + [body(exc)]
                    return it.call(it.get("probes", f), args, {})
                for q in explore(prog, build):
                    s1, s2 = q.interp.s1, q.interp.s2
                    seeds = [s2, None] if f == "seeded_nested" else [s1] * runs
                    bad = judge(q, seeds, exc)
                    rep.ob(nm, not bad, w, "; ".join(bad), "typestate of the generator")
            rep.guard(nm, go, w)

    # every reference of the package to a random source
    nref = 0
    for mod, rel in package_modules(prog):
        src = prog.src(mod)
        al = Aliases(src)
        bad = []
        for d, nd, qual, cl in al.refs:
            where = "%s:%s:%d" % (rel, qual or "<module>", nd.lineno)
            last = d.rpartition(".")[2]
            if d.startswith(("numpy.random", "autograd.numpy.random")):
                nref += 1
                if last in PRIVATE:
                    bad.append((where, "uses %s, a generator of its own" % d))
                elif last in RESEED and rel != MCFILE:
                    bad.append((where, "%s outside temp_seed" % d))
                elif not qual and cl is not None:
                    bad.append((where, "%s is drawn when the module is imported" % d))
            elif d.startswith(ENTROPY) or d == "random":
                nref += 1
                bad.append((where, "uses %s" % d))
            if cl is not None:
                for k in cl.keywords:
                    if k.arg in ("random_state", "seed") and not neutral(k.value, al):
                        bad.append((where, "%s is given to %s" % (ast.unparse(k)[:60], ast.unparse(cl.func)[:60])))
                if last == "rvs" or d.endswith(".rvs"):
                    nref += 1
        for x, msg in bad:
            rep.ob("random sources of %s: %s" % (rel, msg), False, x, msg, "resolution of names")
        if not bad:
            rep.ob("random sources of %s" % rel, True, rel, "", "resolution of names")
    rep.extra["references_to_random_sources"] = nref

    # fresh draws on every call
    E = lambda it, x, cx: arr(it, x, cx)
    tau = leafT("tau", (N, I1), real=True, pos=True)

    def gens():
        n_ = npm.num
        for f in ("generate_covariance", "generate_complex_covariance"):
            for u in (False, True):
                yield "%s(unit_det=%s)" % (f, u), GEN, f, lambda it, f=f, u=u: call(it, GEN, f, n_(p), unit_det=u)
        for f in ("generate_textures_gamma_dist", "generate_textures_lognormal_dist"):
            yield f, GEN, f, lambda it, f=f: call(it, GEN, f, n_(N))
        for f in ("generate_stiefel", "generate_complex_stiefel"):
            yield f, GEN, f, lambda it, f=f: call(it, GEN, f, n_(p), n_(p))
        for cx, pre in ((False, ""), (True, "complex_")):
            yield pre + "standard normal", GEN, "sample_%sstandard_normal_distribution" % pre, \
                lambda it, pre=pre: call(it, GEN, "sample_%sstandard_normal_distribution" % pre, n_(p), n_(N))
            yield pre + "normal", GEN, "sample_%snormal_distribution" % pre, \
                lambda it, pre=pre, cx=cx: call(it, GEN, "sample_%snormal_distribution" % pre, n_(N), E(it, S_T(cx), cx))
            yield pre + "compound", GEN, "sample_%scompound_distribution" % pre, \
                lambda it, pre=pre, cx=cx: call(it, GEN, "sample_%scompound_distribution" % pre, E(it, tau, False), E(it, S_T(cx), cx))
            yield pre + "low rank", GEN, "sample_%stau_UUH_distribution" % pre, \
                lambda it, pre=pre, cx=cx: call(it, GEN, "sample_%stau_UUH_distribution" % pre, E(it, tau, False),
                                                E(it, leafT("U", (p, KK), real=not cx), cx))
        from checks_c_geom import singles
        for mf in singles():
            yield "rand of %s" % mf.id, MAN, mf.cls, lambda it, mf=mf: it.call(it.getattr(mf.make(it), "rand"), [], {})
            yield "randvec of %s" % mf.id, MAN, mf.cls, \
                lambda it, mf=mf: it.call(it.getattr(mf.make(it), "randvec"), [arr(it, mf.point("x"), mf.cplx)], {})
    for nm, mod, f, run in gens():
        w = anchor(prog, mod, f)

        def go():
            def build(it):
                m0 = len(it.path.events)
                x = T_(run(it))
                m1 = len(it.path.events)
                y = T_(run(it))
                d1 = [e.leaf for e in it.path.events[m0:m1] if e.kind == "rng"]
                d2 = [e.leaf for e in it.path.events[m1:] if e.kind == "rng"]
                return x, y, d1, d2
            qs = [q for q in explore(prog, build) if q.outcome == "return"]
            for q in qs:
                x, y, d1, d2 = q.result
                if not d1:
                    rep.ob("%s draws from the generator" % nm, False, w, "nothing is drawn", "trace of draws")
                    continue
                d1, d2 = [(k if hasattr(k, "terms") else tf.from_node(k)) for k in d1], [(k if hasattr(k, "terms") else tf.from_node(k)) for k in d2]
                if len(d1) != len(d2):
                    rep.ob("%s draws anew" % nm, False, w, "%d draws, then %d" % (len(d1), len(d2)), "trace of draws")
                    continue
                sub = {}
                for u, v in zip(d1, d2):
                    if [str(s) for s in u.dims] != [str(s) for s in v.dims]:
                        rep.ob("%s draws anew" % nm, False, w, "draws of different shapes", "trace of draws")
                        break
                    nu, nv = u.terms[0][0][1][0][0], v.terms[0][0][1][0][0]
                    sub[nv] = u
                else:
                    eq(rep, "%s draws anew, the same way each time" % nm, w, tf.Subst(sub)(y), x, UD)
            if not qs:
                rep.ob("%s returns" % nm, False, w, "no path returns")
        rep.guard("%s draws anew" % nm, go, w)
    return rep


def neutral(e, al):
    """a random_state that stands for the global generator or is chosen by the caller"""
    if isinstance(e, ast.Constant):
        return e.value is None
    d = al.dotted(e)
    if d is not None:
        return d in ("numpy.random", "numpy.random.mtrand._rand")
    if isinstance(e, ast.Name):
        return True
    if isinstance(e, ast.Attribute):
        return True
    if isinstance(e, ast.IfExp):
        return neutral(e.body, al) and neutral(e.orelse, al)
    if isinstance(e, ast.BoolOp):
        return all(neutral(x, al) for x in e.values)
    return False


# ------------------------------------------------------------------ X01
def is_draw(node):
    return node.kind == "leaf" and node.args[0].startswith("$randn")


def moment(x, y):
    """E[x (x) y] for forms that are polynomial in independent standard normal draws: over the axes of x then y"""
    nx, ny = x.n, y.n
    xs, ys = list(range(nx)), list(range(nx, nx + ny))
    z = tf.contract([(tf.flat(x), xs), (tf.flat(y), ys)], xs + ys, (1,) * (nx + ny), list(x.dims) + list(y.dims), {})
    return expect(z)


def expect(z):
    raw = []
    for (ph, fs), c in z.terms:
        draws, rest = [], []
        for f in fs:
            if is_draw(f[0]):
                k = f[2].const()
                if k is None or k.denominator != 1 or k < 0:
                    raise tf.Unsupported("a power of a draw")
                draws += [f] * int(k)
            else:
                for nd in tf.walk_nodes(tf.from_node(f[0])):
                    if is_draw(nd):
                        raise tf.Unsupported("a nonlinear function of a draw")
                rest.append(f)
        for pr in pairings(draws):
            extra = []
            for u, v in pr:
                for a_, b_, d in zip(u[3], v[3], u[0].dims):
                    extra.append((tf.delta_node(d), False, I1, (a_, b_)))
            raw.append((c, ph, rest + extra, tf._bounds(fs)))
    return tf.build(z.sizes, z.dims, raw)


def pairings(ds):
    """Wick: all perfect matchings of equal draws"""
    if not ds:
        yield []
        return
    a_, rest = ds[0], ds[1:]
    for i, b_ in enumerate(rest):
        if b_[0] is a_[0]:
            for m in pairings(rest[:i] + rest[i + 1:]):
                yield [(a_, b_)] + m


@check("X01")
def x01():
    rep = Report("X01", "Every sampler is interpreted for sizes, covariances, factors and textures of symbolic values; the second and the "
                 "pseudo second moments of the form it returns are computed exactly from the independence of the draws (Wick) and "
                 "compared with the documented ones; covariances, frames and textures are compared with their documented structure.")
    prog = Program()
    rep.progs.append(prog)
    n_ = npm.num

    def wh(f):
        return anchor(prog, GEN, f)

    def shape(nm, w, r, dims, cx):
        ok = [str(s) for s in r.shape] == [str(s) for s in dims]
        rep.ob("%s: shape" % nm, ok, w, "shape %s" % (r.shape,))
        rep.ob("%s: field" % nm, r.dt == ("c" if cx else "f"), w, "dtype kind %s" % r.dt)
        return ok

    def moments(nm, w, r, want, cx):
        """want: p x p x N (third axis the column) second moment"""
        x = tf.flat(r.t)
        eq(rep, "%s: mean zero" % nm, w, expect(x), tf.scale_T(x, 0), UD)
        m2 = moment(x, tf.conj_T(x))          # i n j m
        d = x.dims
        full = bt([(want, [0, 2, 1]), (tf.eye(d[1]), [1, 3])], [0, 1, 2, 3], (d[0], d[1], d[0], d[1]), {})
        eq(rep, "%s: second moment of the columns" % nm, w, m2, full, UD)
        if cx:
            eq(rep, "%s: no pseudo-covariance" % nm, w, moment(x, x), tf.scale_T(full, 0), UD)

    def each(dims, c_):
        """the same matrix for every column"""
        return bt([(c_, [0, 1])], [0, 1, 2], dims, {})
    tf1 = leafT("tau", (N,), real=True, pos=True)
    tau2 = leafT("tau", (N, I1), real=True, pos=True)

    def scaled(c_):
        return bt([(c_, [0, 1]), (tf1, [2])], [0, 1, 2], (p, p, N), {})

    for cx, pre in ((False, ""), (True, "complex_")):
        S_ = S_T(cx)
        f = "sample_%sstandard_normal_distribution" % pre

        def judge(nm, w, want, dims=(p, N)):
            def j(r):
                if shape(nm, w, r, dims, cx):
                    moments(nm, w, r, want, cx)
            return j
        study(rep, prog, f, wh(f), lambda it: call(it, GEN, f, n_(p), n_(N)), judge(f, wh(f), each((p, p, N), tf.eye(p))))
        f2 = "sample_%snormal_distribution" % pre
        study(rep, prog, f2, wh(f2), lambda it: call(it, GEN, f2, n_(N), arr(it, S_, cx)), judge(f2, wh(f2), each((p, p, N), S_)))
        for s, mk in (("(N, 1)", lambda it: arr(it, tau2)), ("(N,)", lambda it: arr(it, tf1))):
            sub = lambda t: t if s == "(N,)" else t
            t_ = tf1 if s == "(N,)" else bt([(tau2, [0, ("c", R.const(0))])], [0], (N,), {})
            f3 = "sample_%scompound_distribution" % pre
            nm = "%s, textures %s" % (f3, s)
            want = bt([(S_, [0, 1]), (t_, [2])], [0, 1, 2], (p, p, N), {})
            study(rep, prog, nm, wh(f3), lambda it: call(it, GEN, f3, mk(it), arr(it, S_, cx)), judge(nm, wh(f3), want))
            f4 = "sample_%stau_UUH_distribution" % pre
            nm4 = "%s, textures %s" % (f4, s)
            U = leafT("U", (p, KK), real=not cx)
            uu = bt([(U, [0, 9]), (tf.conj_T(U), [1, 9])], [0, 1], (p, p), {9: KK}) if False else mm_rect(U)
            want4 = tf.add_T(bt([(uu, [0, 1]), (t_, [2])], [0, 1, 2], (p, p, N), {}), each((p, p, N), tf.eye(p)))
            study(rep, prog, nm4, wh(f4), lambda it: call(it, GEN, f4, mk(it), arr(it, U, cx)), judge(nm4, wh(f4), want4))
        # covariances
        fc = "generate_%scovariance" % pre
        for ud in (False, True):
            nm = "%s(unit_det=%s)" % (fc, ud)

            def cov(r):
                if not shape(nm, wh(fc), r, (p, p), cx):
                    return
                eq(rep, "%s: Hermitian" % nm, wh(fc), r.t, H(r.t), UD)
                from checks_c_geom import positive_by
                ok, det = (True, "") if tf.psd(r.t) else positive_by(r.t, ())
                rep.ob("%s: positive definite" % nm, ok, wh(fc), det, "definiteness analysis")
                if ud:
                    d = tf.det_T(tf.flat(r.t))
                    eq(rep, "%s: unit determinant" % nm, wh(fc), d, tf.scalar(I1), UD)
            study(rep, prog, nm, wh(fc), lambda it: call(it, GEN, fc, n_(p), unit_det=ud), cov)
        # frames
        fs = "generate_%sstiefel" % pre
        for s, k_, dims in (("k < p", KK, R.add(KK, m)), ("k = p", p, p)):
            nm = "%s, %s" % (fs, s)

            def frame(r):
                if not shape(nm, wh(fs), r, (dims, k_), cx):
                    return
                q = tf.flat(r.t)
                l = tf.fresh()
                g = bt([(tf.conj_T(q), [l, 0]), (q, [l, 1])], [0, 1], (k_, k_), {l: dims})
                eq(rep, "%s: orthonormal columns" % nm, wh(fs), g, tf.eye(k_), UD)
            study(rep, prog, nm, wh(fs), lambda it: call(it, GEN, fs, n_(dims), n_(k_)), frame)
    # textures
    f = "generate_textures_gamma_dist"
    for s, a_ in (("default nu", []), ("any nu", [sym("nu")])):
        nm = "%s, %s" % (f, s)
        tf.POS_SYMBOLS.update({"nu", "variance"})

        def gam(it):
            r = call(it, GEN, f, n_(N), *a_)
            return r, [e for e in it.path.events if e.kind == "rng"]

        def jg(x):
            r, ev = x
            if not shape(nm, wh(f), r, (N, I1), False):
                return
            if len(ev) != 1 or ev[0].name != "gamma":
                rep.ob("%s: mean one" % nm, None, wh(f), "not a single gamma draw")
                return
            sh, sc = T_(ev[0].args[0]), T_(ev[0].args[1])
            leaf = ev[0].leaf if hasattr(ev[0].leaf, "terms") else tf.from_node(ev[0].leaf)
            # the draw counts as shape * 1 on average
            q = ratio(r.t, leaf)
            if q is None:
                rep.ob("%s: mean one" % nm, None, wh(f), "not a multiple of the draw")
                return
            eq(rep, "%s: mean one" % nm, wh(f), tf.mul_T(q, tf.flat(sh)), tf.scalar(I1), UD)
            rep.ob("%s: positive" % nm, bool(tf.nonneg(r.t)), wh(f), "", "sign analysis")
        study(rep, prog, nm, wh(f), gam, jg)
    f = "generate_textures_lognormal_dist"
    for s, a_ in (("default variance", []), ("any variance", [sym("variance")])):
        nm = "%s, %s" % (f, s)

        def logn(it):
            r = call(it, GEN, f, n_(N), *a_)
            return r, [e for e in it.path.events if e.kind == "rng"]

        def jl(x):
            r, ev = x
            if not shape(nm, wh(f), r, (N, I1), False):
                return
            if len(ev) != 1 or ev[0].name not in ("randn",):
                rep.ob("%s: mean one" % nm, None, wh(f), "not a single normal draw")
                return
            leaf = ev[0].leaf
            full = tf.from_node(leaf)
            at = lambda v: scalar_of(tf.Subst({leaf: tf.const_T(full.dims, R.const(v))})(tf.flat(r.t)))
            c0, c1 = at(0) if False else at_zero(r.t, leaf), at(1)
            # r = c0 exp(s z) with s = log(c1 / c0); the mean is c0 exp(s^2 / 2)
            s_ = tf.sub_T(tf.fn("log", [c1]), tf.fn("log", [c0]))
            form = tf.mul_T(spread(c0, full), tf.fn("exp", [tf.mul_T(spread(s_, full), full)]))
            ok = same(tf.flat(r.t), form, dims=UD)[0]
            if not ok:
                rep.ob("%s: mean one" % nm, None, wh(f), "not the exponential of an affine function of the draw")
                return
            mean = tf.mul_T(c0, tf.fn("exp", [tf.scale_T(tf.mul_T(s_, s_), HALF)]))
            eq(rep, "%s: mean one" % nm, wh(f), mean, tf.scalar(I1), UD)
            if a_:
                # documented: log-variance is the parameter
                eq(rep, "%s: log-variance" % nm, wh(f), tf.mul_T(s_, s_), tf.scalar(R.sym("variance")), UD)
            rep.ob("%s: positive" % nm, bool(tf.nonneg(r.t)), wh(f), "", "sign analysis")
        study(rep, prog, nm, wh(f), logn, jl)
    rep.assumptions.append("draws of numpy's global generator and scipy's rvs are independent with the distributions their names state")
    return rep


def mm_rect(U):
    l = tf.fresh()
    return bt([(U, [0, l]), (tf.conj_T(U), [1, l])], [0, 1], (U.dims[0], U.dims[0]), {l: U.dims[1]})


def ratio(x, leaf):
    """q with x = q * leaf for a scalar q, or None"""
    x, leaf = tf.flat(x), tf.flat(leaf)
    f0 = leaf.terms[0][0][1][0]
    raw = []
    for (ph, fs), c in x.terms:
        hit = [f for f in fs if f[0] is f0[0]]
        rest = [f for f in fs if f[0] is not f0[0]]
        if len(hit) != 1 or hit[0][2] != I1 or ph or any(f[3] for f in rest):
            return None
        raw.append((c, 0, rest, {}))
    return tf.build((), (), raw)


def scalar_of(t):
    """the common entry of a constant array"""
    t = tf.flat(t)
    if tf.used_labels(t):
        raise tf.Unsupported("not constant")
    return tf.build((), (), [(c, ph, list(fs), tf._bounds(fs)) for (ph, fs), c in t.terms])


def at_zero(t, leaf):
    return scalar_of(tf.Subst({leaf: tf.scale_T(tf.from_node(leaf), 0)})(tf.flat(t)))


def spread(s, ref):
    return tf.lift_scalar(s, ref)


# ------------------------------------------------------------------ O01
@check("O01")
def o01():
    rep = Report("O01", "The stochastic estimator is interpreted over a manifold, a gradient and a map to covariances of which nothing is "
                 "known, for streams of one, two, three and of any number of samples, and for the histories set/update, fit/update, "
                 "fit/fit, fit without a start and update before the start.")
    prog = Program()
    rep.progs.append(prog)
    w = anchor(prog, ONL, "StochasticGradientCovarianceEstimator")

    def op2(nm, x, y, dims):
        return tf.op_T(nm, [tf.flat(x), tf.flat(y)], dims, herm=True, psd=True, inv=True)

    class World:
        """kind: '' one matrix, 'list', 'tuple' three matrices"""

        def __init__(self, kind, tocov):
            self.kind, self.tocov_given = kind, tocov or bool(kind)
            self.k = 3 if kind else 1
            self.d = [(a, a), (b, b), (a, a)] if kind else [(p, p)]

        def start(self, it):
            xs = [arr(it, leafT("E%d" % i, d, real=False, herm=True, psd=True, inv=True), True) for i, d in enumerate(self.d)]
            return xs if self.kind else xs[0]

        def parts(self, e):
            if self.kind:
                if not isinstance(e, (list, tuple)) and not isinstance(e, Inst):
                    raise tf.Unsupported("%r is not a product point" % (e,))
                return [x.t for x in e]
            return [T_(e)]

        def retr_T(self, xs, vs):
            return [op2("RETR%d" % i, x, v, d) for i, (x, v, d) in enumerate(zip(xs, vs, self.d))]

        def grad_T(self, sample, xs):
            return [tf.op_T("RGRAD%d" % i, [tf.flat(sample)] + [tf.flat(x) for x in xs], d, herm=True) for i, d in enumerate(self.d)]

        def cov_T(self, xs):
            return tf.op_T("TOCOV", [tf.flat(x) for x in xs], (p, p), herm=True, psd=True, inv=True) if self.tocov_given else xs[0]

        def step(self, xs, sample, t):
            return self.retr_T(xs, [tf.scale_T(g, t) for g in self.grad_T(sample, xs)])

        def wrap(self, ts, seq):
            r = [npm.mk(None, t, "c") if False else Arr(t, "c") for t in ts]
            return r[0] if not self.kind else tuple(r) if seq == "tuple" else r

        def make(self, it, **kw):
            def retr(it, a_, k):
                xs, vs = self.parts(a_[0]), self.parts(a_[1])
                it.event("o-retr", x=xs, v=vs)
                return self.wrap(self.retr_T(xs, vs), "list")

            def rgrad(it, a_, k):
                s = a_[0]
                if not isinstance(s, Arr) or s.ndim != 2 or s.shape[0] != I1:
                    it.raise_("ValueError", "a sample of shape (1, p) is expected")
                it.event("o-rgrad", sample=s.t)
                return self.wrap(self.grad_T(s.t, self.parts(a_[1])), self.kind)

            def tocov(it, a_, k):
                return Arr(self.cov_T(self.parts(a_[0])), "c")

            def cost(it, a_, k):
                it.event("o-cost")
                return Arr(tf.op_T("COST", [tf.flat(x) for x in self.parts(a_[1])], (), real=True), "f", py=True)
            man = Opaque("a manifold", attrs={"truth": True, "retr": Native("retr", retr)})
            args = [man, Native("rgrad", rgrad), sym("lr")]
            if self.tocov_given:
                kw["estimatetocov"] = Native("tocov", tocov)
            if kw.pop("with_cost", False):
                kw["cost"] = Native("cost", cost)
            return it.call(it.get(ONL, "StochasticGradientCovarianceEstimator"), args, kw)

    lr = R.sym("lr")
    RULES = ("inverse iteration", "constant step")

    def rate(rule, t):
        return R.div(lr, R.add(t, I1)) if rule == RULES[0] else lr

    def row(X, i):
        return bt([(X, [("c", R.const(i)), 1])], [0, 1], (I1, p), {}) if False else \
            bt([(X, [("c", R.const(i)), 1])], [0, 1], (I1, p), {})

    def chain(W, xs, X, rows, rule, t0=0):
        for i in range(rows):
            xs = W.step(xs, row(X, i), rate(rule, R.const(t0 + i)))
        return xs

    def state(rep, nm, e, W, xs):
        for i, (g, x) in enumerate(zip(W.parts(e["estimate_"]), xs)):
            eq(rep, nm + ": estimate_%s" % ("[%d]" % i if W.kind else ""), w, g, x, OD)
        eq(rep, nm + ": covariance_", w, T_(e["covariance_"]), W.cov_T(xs), OD)
    OD = [{"p": 2, "a": 2, "b": 1, "n": 3}, {"p": 3, "a": 1, "b": 2, "n": 2}]

    def XT(rows, nm="X"):
        return leafT(nm, (R.const(rows) if isinstance(rows, int) else rows, p), real=False)

    def fit(it, e, W, X, rule, **kw):
        return it.call(it.getattr(e, "fit"), [arr(it, X, True)], {"init": W.start(it), **({"lr_update": rule} if rule else {}), **kw})

    def starts(W):
        return [leafT("E%d" % i, d, real=False, herm=True, psd=True, inv=True) for i, d in enumerate(W.d)]

    worlds = [("one matrix", World("", False)), ("one matrix, mapped to a covariance", World("", True)),
              ("a list of matrices", World("list", True)), ("a tuple of matrices", World("tuple", True))]
    for wn, W in worlds:
        for rule in RULES:
            for rows in (1, 2, 3):
                nm = "%s, %s, %d samples" % (wn, rule, rows)
                X = XT(rows)
                for vb in ({}, {"verbosity": True}, {"verbosity": True, "with_cost": True}) if rows == 2 else ({},):
                    nv = nm + "".join(", %s" % k for k in vb)

                    def build(it):
                        e = W.make(it, **dict(vb))
                        fit(it, e, W, X, rule)
                        return dict(e.attrs)
                    study(rep, prog, nv, w, build, lambda at: state(rep, nv, at, W, chain(W, starts(W), X, rows, rule)))
            # histories
            X, Y = XT(2), XT(1, "Y")

            def go(nm, f, want):
                nm = "%s, %s, %s" % (wn, rule, nm)

                def build(it):
                    e = W.make(it)
                    f(it, e)
                    return dict(e.attrs)
                study(rep, prog, nm, w, build, lambda at: state(rep, nm, at, W, want()))
            upd = lambda it, e, Z: it.call(it.getattr(e, "update"), [arr(it, Z, True), rule], {})
            go("fit then update", lambda it, e: (fit(it, e, W, X, rule), upd(it, e, Y)),
               lambda: W.step(chain(W, starts(W), X, 2, rule), Y, rate(rule, R.const(2))))
            go("fit then fit", lambda it, e: (fit(it, e, W, Y, rule), fit(it, e, W, X, rule)),
               lambda: chain(W, starts(W), X, 2, rule))
            go("set_estimate then update", lambda it, e: (it.call(it.getattr(e, "set_estimate"), [W.start(it)], {}), upd(it, e, Y)),
               lambda: W.step(starts(W), Y, rate(rule, R.const(0))))
            go("fit without a start changes nothing", lambda it, e: (fit(it, e, W, X, rule), it.call(it.getattr(e, "fit"), [arr(it, Y, True)], {})),
               lambda: chain(W, starts(W), X, 2, rule))
        # any number of samples: the generic iteration
        for rule in RULES:
            nm = "%s, %s, any number of samples" % (wn, rule)

            def go():
                X = XT(n)

                def build(it):
                    e = W.make(it)
                    fit(it, e, W, X, rule)
                    return dict(e.attrs)
                qs = explore(prog, build)
                seen = 0
                for q in qs:
                    if q.outcome == "raise":
                        rep.ob(nm, False, w, "raises %s" % exc_name(q))
                        continue
                    for l in q.loops:
                        key = [k for k in l.phi if isinstance(k, tuple) and len(k) == 3 and k[0] == "attr" and k[2] == "estimate_" and k in l.next]
                        if len(key) != 1 or l.label is None:
                            continue
                        seen += 1
                        k = key[0]
                        if l.n is not None:
                            rep.ob(nm + ": one iteration per sample", to_T(l.n) is not None and tf.flat(to_T(l.n)) == tf.scalar(n)
                                   if not isinstance(l.n, R.Rat) else l.n == n, w, "%s iterations" % (l.n,))
                        for i, x in enumerate(W.parts(l.init[k])):
                            eq(rep, nm + ": starts from init", w, x, starts(W)[i], OD)
                        ph = W.parts(l.phi[k])
                        lab = l.label
                        smp = bt([(X, [lab, 1])], [0, 1], (I1, p), {})
                        pos = tf.contract([(tf.from_node(tf.iota_node(n)), [lab])], [], (), (), {})
                        t = tf.scale_T(tf.tpow(tf.add_T(pos, tf.scalar(I1)), R.const(-1)), lr) if rule == RULES[0] else tf.scalar(lr)
                        g = W.grad_T(smp, ph)
                        want = W.retr_T(ph, [tf.mul_T(x, spread(t, x)) for x in g])
                        for i, (x, y) in enumerate(zip(W.parts(l.next[k]), want)):
                            eq(rep, nm + ": one step at the generic sample", w, x, y, OD)
                        ck = [z for z in l.next if isinstance(z, tuple) and len(z) == 3 and z[0] == "attr" and z[2] == "covariance_"]
                        if len(ck) == 1:
                            eq(rep, nm + ": covariance_ follows", w, T_(l.next[ck[0]]), W.cov_T(W.parts(l.next[k])), OD)
                        else:
                            rep.ob(nm + ": covariance_ follows", None, w, "covariance_ is not changed in the loop")
                if not seen:
                    rep.ob(nm, None, w, "the loop over the samples was not recognised")
            rep.guard(nm, go, w)
    # refusals
    W = World("", False)
    for nm, f in (("fit without a starting point", lambda it, e: it.call(it.getattr(e, "fit"), [arr(it, XT(2), True)], {})),
                  ("update before initialisation", lambda it, e: it.call(it.getattr(e, "update"), [arr(it, XT(1), True), RULES[0]], {}))):
        def build(it):
            e = W.make(it)
            before = dict(e.attrs)
            mark = len(it.path.events)
            r = f(it, e)
            ev = it.path.events[mark:]
            same_ = set(before) == set(e.attrs) and all(e.attrs[k] is before[k] or e.attrs[k] == before[k] for k in before)
            return same_, any(x.kind == "log" and x.level in ("error", "critical", "exception") for x in ev), \
                any(x.kind in ("o-retr", "o-rgrad") for x in ev), r is e

        def j(x):
            rep.ob(nm + ": changes nothing", x[0] and not x[2], w, "attributes change" if not x[0] else "a step is computed")
            rep.ob(nm + ": logs an error", x[1], w, "nothing is logged")
            rep.ob(nm + ": returns the estimator", x[3], w, "")
        study(rep, prog, nm, w, build, j)
    return rep
