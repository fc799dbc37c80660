"""Random interpretation of tensor normal forms (Gulwani & Necula).

Two normal forms that are not syntactically identical are compared by evaluating
the *terms* (never the analysed program) at random points of the leaves and
symbols.  Terms are analytic in their leaves, so agreement at random points means
equality up to rounding, and a difference is a concrete witness.  Uninterpreted
operations are given values that depend on their arguments only.
"""
import hashlib
import math
from fractions import Fraction
import numpy as np
import rat as R
import tf
from scipy import special, stats  # noqa

BOUND0 = tf.BOUND0


class NoEval(Exception):
    pass


def _h(*a):
    return int.from_bytes(hashlib.sha256(repr(a).encode()).digest()[:8], "big")


class Point:
    """one random point: symbols -> number, leaves -> array"""

    def __init__(self, seed, syms, flags=None):
        self.seed = seed
        self.syms = dict(syms)
        self.leaves = {}
        self.memo = {}
        self.tm = {}
        self.fixed = {}        # Node -> ndarray
        self.ops = {}
        self.opaque = False
        self.stretch = 1.0     # factor on leaves that are neither positive nor definite
        self.wild = False      # leaves and positive symbols of very different magnitudes
        self.spread = 5        # decimal exponents of those magnitudes
        self.centre = 0
        self.noise = 0         # number of a perturbed evaluation of the same point

    def rng(self, *key):
        return np.random.default_rng(_h(self.seed, *key) % (2 ** 63))

    def sym(self, s):
        v = self.syms.get(s)
        if v is None:
            r = self.rng("sym", s)
            if s in tf.INT_SYMBOLS:
                v = int(r.integers(2, 4))
            elif s.startswith("kappa"):
                v = int(r.integers(1, 5))
            elif s in tf.POS_SYMBOLS:
                v = float(r.uniform(0.3, 2.5))
                if self.wild:
                    v *= 10.0 ** float(r.uniform(-1, 1) * (4 if not self.centre else 8))
            else:
                v = float(r.uniform(-2, 2))
            self.syms[s] = v
        return v

    def rat(self, r):
        def poly(p):
            t = 0.0
            for m, c in p.items():
                x = float(c)
                for v, e in m:
                    x *= self.sym(v) ** float(e)
                t += x
            return t
        d = poly(r.d)
        if d == 0:
            raise NoEval("division by zero")
        return poly(r.n) / d

    def dim(self, r):
        v = self.rat(r)
        k = int(round(v))
        if abs(v - k) > 1e-9 or k < 0:
            raise NoEval("dimension %s" % r)
        return k

    # ------------------------------------------------------------ terms
    def T(self, t):
        v = self.tm.get(t.id)
        if v is None:
            v = self.tm[t.id] = self._T(t)
        return v

    def outer_index(self, name, dim):
        return int(_h(self.seed, "o", name) % max(1, dim)) if dim else 0

    def _T(self, t):
        dims = [self.dim(d) for d in t.dims]
        if any(d == 0 for d in dims):
            return np.zeros(dims, dtype=complex)
        acc = np.zeros(dims, dtype=complex)
        for (ph, fs), c in t.terms:
            ops, cur = [], complex(self.rat(c)) * (1j ** ph)
            lab = {}
            for f in fs:
                a = self.node(f[0])
                if f[1]:
                    a = np.conj(a)
                e = self.rat(f[2])
                if e != 1:
                    a = self.power(a, e)
                idx, keep = [], []
                for s, l in enumerate(f[3]):
                    if isinstance(l, int):
                        idx.append(slice(None))
                        keep.append(l)
                    elif l[0] == "c":
                        k = int(round(self.rat(l[1])))
                        if k < 0:
                            k += a.shape[s]
                        if not 0 <= k < a.shape[s]:
                            raise NoEval("index out of range")
                        idx.append(k)
                    else:
                        idx.append(self.outer_index(l, a.shape[s]))
                a = a[tuple(idx)]
                ops.append((a, keep))
            # sum over the bound labels
            names = {}
            args = []
            for a, keep in ops:
                for l in keep:
                    names.setdefault(l, len(names))
                args += [a, [names[l] for l in keep]]
            out = [l for l in range(len(dims)) if l in names]
            if args:
                r = np.einsum(*args, [names[l] for l in out], optimize=len(ops) > 2)
            else:
                r = np.array(1.0)
            shp = [dims[l] if l in names else 1 for l in range(len(dims))]
            # einsum keeps the order of `out`, which is increasing
            acc = acc + cur * np.reshape(r, shp)
        return acc

    def power(self, a, e):
        if abs(e - round(e)) < 1e-12:
            e = int(round(e))
            if e < 0 and np.any(a == 0):
                raise NoEval("zero to a negative power")
            return a ** e
        return np.power(a.astype(complex), e)

    # ------------------------------------------------------------ nodes
    def node(self, n):
        v = self.memo.get(n.id)
        if v is None:
            v = np.asarray(self._node(n), dtype=complex)
            if self.noise and n.kind not in ("leaf", "delta", "iota"):
                e = 4e-16 * self.rng("rounding", self.noise, n.id).uniform(-1, 1, size=v.shape)
                v = v * (1 + e) if n.kind in ("fn", "pw") else v + e * np.max(np.abs(v), initial=0)
            self.memo[n.id] = v
        return v

    def herm(self, r, shape, real, psd):
        b = r.normal(size=shape)
        if not real:
            b = b + 1j * r.normal(size=shape)
        bh = np.conj(np.swapaxes(b, -1, -2))
        if psd:
            return b @ bh + 0.4 * np.eye(shape[-1])
        return (b + bh) / 2

    def leaf(self, n):
        nm = n.args[0]
        if nm.startswith("$tri") and nm[:6] in ("$triu_", "$tril_"):
            f = np.triu_indices if nm[4] == "u" else np.tril_indices
            return f(self.dim(n.info))[0 if nm[6] == "r" else 1].astype(float)
        v = self.leaf_(n)
        if self.wild and not n.unitary:
            r = self.rng("magnitude", n.args[0])
            v = v * 10.0 ** float(self.centre + r.uniform(-self.spread, self.spread))
            if np.ndim(v) >= 1 and not (n.herm or n.psd) and r.uniform() < 0.6:
                v = v * (10.0 ** r.uniform(-3, 3, size=v.shape[:1])).reshape((-1,) + (1,) * (v.ndim - 1))
        if self.noise and not n.unitary:
            v = v * (1 + 1e-13 * self.rng("noise", self.noise, n.args[0]).uniform(-1, 1))
        return v

    def leaf_(self, n):
        dims = [self.dim(d) for d in n.dims]
        r = self.rng("leaf", n.args[0])
        sz = tuple(dims)
        if n.pos and not (n.psd or n.herm) or (n.psd and len(sz) == 0):
            return r.uniform(0.3, 2.0, size=sz)
        if n.unitary:
            b = r.normal(size=sz) + (0 if n.real else 1j * r.normal(size=sz))
            q, _ = np.linalg.qr(b)
            return q
        if (n.herm or n.psd) and len(sz) >= 2:
            return self.herm(r, sz, n.real, n.psd) * (1 if n.psd else self.stretch)
        b = r.normal(size=sz) * self.stretch
        return b if n.real else b + 1j * r.normal(size=sz)

    def _node(self, n):
        if n in self.fixed:
            return self.fixed[n]
        k = n.kind
        dims = [self.dim(d) for d in n.dims]
        if k == "leaf":
            return self.leaf(n)
        if k == "delta":
            return np.eye(dims[0])
        if k == "rad":
            return np.array(self.rat(n.info))
        if k == "logc":
            return np.array(math.log(self.rat(n.info)))
        if k == "inj":
            tot, off, sz = [self.dim(x) for x in n.info]
            a = np.zeros((tot, sz))
            for i in range(sz):
                if off + i < tot:
                    a[off + i, i] = 1
            return a
        if k == "iota":
            return np.arange(dims[0], dtype=float)
        if k == "rev":
            return np.eye(dims[0])[::-1]
        if k == "split":
            return np.eye(dims[0]).reshape(dims)
        if k == "pw":
            return self.T(n.info)
        if k == "fn":
            return self.fn(n.args[0], [self.T(s) for s in n.sub], n.info[1], dims)
        if k in ("mpow", "mfun", "chol", "cholinv", "eigval", "eigvec"):
            return self.matrix(n, k)
        if k == "det":
            a = self.T(n.sub[0])
            return np.linalg.det(a)
        if k == "red":
            nm, red, miss, extra = n.info
            a = self.T(n.sub[0])
            for m in miss:
                if nm == "prod":
                    a = a ** self.dim(m)
            if red:
                f = {"prod": np.prod, "max": lambda x, axis: np.max(x.real, axis=axis),
                     "min": lambda x, axis: np.min(x.real, axis=axis),
                     "median": lambda x, axis: np.median(x.real, axis=axis),
                     "any": lambda x, axis: np.any(x != 0, axis=axis),
                     "all": lambda x, axis: np.all(x != 0, axis=axis)}.get(nm)
                if f is None:
                    raise NoEval("reduction " + nm)
                a = f(a, axis=tuple(red))
            return a
        if k == "op":
            return self.op(n, dims)
        raise NoEval("node " + k)

    def matrix(self, n, k):
        a = self.T(n.sub[0])
        h = tf.is_herm(n.sub[0])
        if k in ("chol", "cholinv", "eigval", "eigvec"):
            if k == "eigval":
                return np.linalg.eigvalsh((a + np.conj(np.swapaxes(a, -1, -2))) / 2)
            if k == "eigvec":
                return np.linalg.eigh((a + np.conj(np.swapaxes(a, -1, -2))) / 2)[1]
            c = np.linalg.cholesky(a)
            return c if k == "chol" else np.linalg.inv(c)
        if k == "mpow":
            e = self.rat(n.info[1])
            if abs(e - round(e)) < 1e-12:
                return np.linalg.matrix_power(a, int(round(e)))

            def f(d):
                return d.astype(complex) ** e
        else:
            g = n.info[1]

            def f(d):
                return self.scalar_fun(g, d)
        if h:
            d, q = np.linalg.eigh((a + np.conj(np.swapaxes(a, -1, -2))) / 2)
            return (q * f(d)[..., None, :]) @ np.conj(np.swapaxes(q, -1, -2))
        d, q = np.linalg.eig(a)
        return (q * f(d)[..., None, :]) @ np.linalg.inv(q)

    def scalar_fun(self, g, d):
        acc = 0
        for (ph, fs), c in g.terms:
            x = complex(self.rat(c)) * (1j ** ph)
            for node, cj, e, ls in fs:
                x = x * self.power(self.fun_node(node, d), self.rat(e))
            acc = acc + x
        return acc + 0 * d

    def fun_node(self, node, d):
        if node.kind == "leaf" and node.args[0] == "$d":
            return d.astype(complex)
        if not tf._mentions_d(node):
            return self.node(node) + 0 * d.astype(complex)
        if node.kind == "pw":
            return self.scalar_fun(node.info, d)
        if node.kind == "fn":
            args = [self.scalar_fun(s, d) for s in node.sub]
            return self.fn(node.args[0], args, node.info[1], d.shape)
        raise NoEval("spectral " + node.kind)

    def fn(self, name, a, extra, dims):
        re = [np.real(x) for x in a]
        if name == "log":
            return np.log(a[0].astype(complex))
        if name == "exp":
            return np.exp(a[0])
        if name == "sqrt":
            return np.sqrt(a[0].astype(complex))
        if name == "abs":
            return np.abs(a[0])
        if name in ("cosh", "sinh", "tanh", "cos", "sin", "sign"):
            return getattr(np, name)(a[0])
        if name == "rint":
            return np.rint(re[0])
        if name in ("floor", "ceil", "round", "trunc"):
            return getattr(np, name)(np.round(re[0], 9))
        if name == "minimum":
            return np.minimum(re[0], re[1])
        if name == "maximum":
            return np.maximum(re[0], re[1])
        if name == "where":
            return np.where(np.abs(a[0]) > 0.5, a[1], a[2])
        if name == "gt0":
            return (re[0] > 0).astype(float)
        if name == "le0":
            return (re[0] <= 0).astype(float)
        if name == "eq0":
            return (np.abs(a[0]) < 1e-12).astype(float)
        if name == "ne0":
            return (np.abs(a[0]) >= 1e-12).astype(float)
        if name in ("lt", "le", "gt", "ge"):
            return {"lt": np.less, "le": np.less_equal, "gt": np.greater, "ge": np.greater_equal}[name](re[0], re[1]) * 1.0
        if name == "eq":
            return (np.abs(a[0] - a[1]) < 1e-12) * 1.0
        if name == "ne":
            return (np.abs(a[0] - a[1]) >= 1e-12) * 1.0
        if name == "logical_and":
            return (np.abs(a[0]) > .5) * (np.abs(a[1]) > .5) * 1.0
        if name == "logical_or":
            return ((np.abs(a[0]) > .5) | (np.abs(a[1]) > .5)) * 1.0
        if name == "logical_not":
            return (np.abs(a[0]) <= .5) * 1.0
        if name == "isfinite":
            return np.ones(dims)
        if name == "mod":
            return np.mod(re[0], re[1])
        if name == "power":
            return self.power_arr(a[0], a[1])
        if name == "angle":
            return np.angle(a[0])
        if name == "chi2.cdf":
            return stats.chi2.cdf(re[0], re[1])
        if name == "chi2.ppf":
            q = re[0]
            return stats.chi2.ppf(np.where((q > 0) & (q < 1), q, np.mod(q, 0.9) + 0.05), re[1])
        self.opaque = True
        return self.uninterpreted("fn:" + name, a, extra, dims)

    def power_arr(self, a, b):
        return np.power(a.astype(complex), b)

    def uninterpreted(self, name, args, extra, dims, elementwise=True):
        """a fixed smooth function of the arguments (elementwise)"""
        r = self.rng("fn", name, extra)
        acc = np.zeros(dims, dtype=complex)
        for x in args:
            c = r.normal(size=3)
            acc = acc + c[0] * np.sin(c[1] * x.real + 0.3) + c[2] * x.imag ** 2
        return acc.real + 1.7

    def op(self, n, dims):
        nm = n.info[0]
        args = [self.T(s) for s in n.sub]
        if nm == "norm" and n.info[1] and n.info[1][0] in ("None", "fro", "2"):
            return np.linalg.norm(args[0])
        if nm == "svdvals":
            return np.linalg.svd(args[0], compute_uv=False)
        if nm in ("scipy.multivariate_t.pdf", "scipy.multivariate_normal.pdf"):
            v = density(nm, args)
            if v is not None:
                return v.reshape(tuple(dims)).astype(complex)
        self.opaque = True
        r = self.rng("op", nm, n.info[1])
        acc = None
        for x in args:
            w = r.normal(size=(2,) + x.shape)
            s = float(np.sum(w[0] * x.real + w[1] * x.imag))
            acc = (acc or 0.0) + math.sin(s) + 0.37 * s
        key = round(acc if acc is not None else 0.0, 6)
        rr = self.rng("opval", nm, n.info[1], tuple(dims))
        sz = tuple(dims)

        def rnd():
            b = rr.normal(size=sz)
            return b if n.real else b + 1j * rr.normal(size=sz)
        b0, b1 = rnd(), rnd()
        b = b0 + math.sin(key) * b1
        if n.pos:
            return np.abs(b) + 0.2
        if n.unitary and len(sz) >= 2:
            return np.linalg.qr(b)[0]
        if (n.psd or n.herm) and len(sz) >= 2:
            bh = np.conj(np.swapaxes(b, -1, -2))
            return b @ bh + .4 * np.eye(sz[-1]) if n.psd else (b + bh) / 2
        return b


def density(nm, args):
    """documented density of the multivariate normal / t distribution"""
    from scipy.special import gammaln
    if len(args) != (3 if nm.endswith("_t.pdf") else 2):
        return None
    S = np.real(args[1])
    d = int(round(math.sqrt(S.size)))
    if d * d != S.size:
        return None
    S = S.reshape(d, d)
    z = np.real(args[0]).reshape(-1, d)
    q = np.einsum("ki,ij,kj->k", z, np.linalg.inv(S), z)
    ld = np.linalg.slogdet(S)[1]
    if nm.endswith("_t.pdf"):
        v = float(np.real(args[2]))
        l = gammaln((v + d) / 2) - gammaln(v / 2) - d / 2 * math.log(v * math.pi) - ld / 2 - (v + d) / 2 * np.log1p(q / v)
    else:
        l = -(d * math.log(2 * math.pi) + ld + q) / 2
    return np.exp(l)


DIMS = [{"n": 7, "p": 3}, {"n": 8, "p": 2}]


def compare(x, y, syms_list=None, points=2, fixed=None, tol=1e-7, magnitudes=True):
    """'eq' / ('ne', witness) / ('unknown', why)"""
    syms_list = syms_list or DIMS
    if [d for d in x.dims] != [d for d in y.dims]:
        # the same shape with other axis splits?
        if x.shape != y.shape:
            return ("ne", "shape %s vs %s" % (x.shape, y.shape))
    why = None
    seen = 0
    for k in range(points * len(syms_list)):
        s = syms_list[k % len(syms_list)]
        pt = Point(k, s)
        if fixed:
            pt.fixed = fixed(pt) if callable(fixed) else dict(fixed)
        try:
            with np.errstate(all="ignore"):
                a, b = pt.T(x), pt.T(y)
                a, b = a.reshape(-1), b.reshape(-1)
        except (NoEval, np.linalg.LinAlgError, ZeroDivisionError, OverflowError) as e:
            why = str(e)
            continue
        if a.shape != b.shape:
            return ("ne", "sizes differ")
        if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
            why = "not finite"
            continue
        seen += 1
        sc = max(1e-300, np.max(np.abs(a), initial=0), np.max(np.abs(b), initial=0))
        d = np.max(np.abs(a - b), initial=0)
        if d > tol * sc and d > 1e-12:
            # rounding, estimated by evaluating perturbed copies of the point
            va = 0.0
            for j in range(1, 4):
                qt = Point(k, s)
                qt.noise = j
                if fixed:
                    qt.fixed = fixed(qt) if callable(fixed) else dict(fixed)
                try:
                    with np.errstate(all="ignore"):
                        a2, b2 = qt.T(x).reshape(-1), qt.T(y).reshape(-1)
                except (NoEval, np.linalg.LinAlgError, ZeroDivisionError, OverflowError):
                    continue
                if a2.shape == a.shape:
                    va = max(va, np.max(np.abs(a2 - a), initial=0), np.max(np.abs(b2 - b), initial=0))
            if not d > 30 * va:
                seen -= 1
                why = "rounding"
                continue
            return ("ne", "at %s: %.6g vs %.6g (max difference %.3g)" % (
                {q: pt.syms[q] for q in sorted(pt.syms)}, abs(a[np.argmax(np.abs(a - b))]),
                abs(b[np.argmax(np.abs(a - b))]), d))
    if seen == 0:
        return ("unknown", why)
    w = wild(x, y, syms_list, fixed) if magnitudes else None
    return ("ne", w) if w else "eq"


def wild(x, y, syms_list, fixed, points=14):
    """a witness that x and y differ at a point whose leaves have very different magnitudes, or None.  The rounding error
    is estimated by evaluating perturbed copies of the point."""
    def at(k, noise):
        pt = Point(1000 + k, syms_list[k % len(syms_list)])
        pt.wild, pt.noise, pt.spread = True, noise, 5
        if k >= 6:
            pt.centre = -6 if k % 4 < 2 else 6
        if fixed:
            pt.fixed = fixed(pt) if callable(fixed) else dict(fixed)
        a, b = pt.T(x).reshape(-1), pt.T(y).reshape(-1)
        if a.shape != b.shape or not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
            raise NoEval("not finite")
        return pt, a, b
    for k in range(points):
        try:
            with np.errstate(all="ignore"):
                pt, a, b = at(k, 0)
                sc = np.maximum(np.abs(a), np.abs(b))
                if not np.any(np.abs(a - b) > 1e-6 * sc):
                    continue
                va = np.zeros(a.shape)
                for j in range(1, 6):
                    _, c, d = at(k, j)
                    va = np.maximum(va, np.maximum(np.abs(c - a), np.abs(d - b)))
        except (NoEval, np.linalg.LinAlgError, ZeroDivisionError, OverflowError):
            continue
        bad = (np.abs(a - b) > 1e-6 * sc) & (np.abs(a - b) > 1e3 * va) & (sc > 1e-250)
        if np.any(bad):
            i = int(np.argmax(bad))
            return "at %s (leaves of different magnitudes): %.6g vs %.6g" % (
                {q: pt.syms[q] for q in sorted(pt.syms)}, abs(a[i]), abs(b[i]))
    return None


def negative(x, syms_list, matrix):
    """a witness that x is not positive (definite), or None"""
    for k in range(len(syms_list) * 3):
        s = syms_list[k % len(syms_list)]
        pt = Point(k, s)
        pt.stretch = (1.0, 3.0, 10.0)[k // len(syms_list)]
        try:
            with np.errstate(all="ignore"):
                a = pt.T(x)
        except (NoEval, np.linalg.LinAlgError, ZeroDivisionError, OverflowError):
            continue
        if not np.all(np.isfinite(a)):
            continue
        sc = np.max(np.abs(a), initial=0)
        if np.max(np.abs(a.imag), initial=0) > 1e-7 * sc and not matrix:
            return "at %s: not real" % (pt.syms,)
        if matrix:
            h = (a + np.conj(np.swapaxes(a, -1, -2))) / 2
            v = float(np.min(np.linalg.eigvalsh(h)))
        else:
            v = float(np.min(a.real))
        if v < -1e-7 * sc and sc > 0:
            return "at %s: smallest %s %.4g" % (pt.syms, "eigenvalue" if matrix else "entry", v)
    return None
