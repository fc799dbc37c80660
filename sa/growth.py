"""Growth order of a normal form in the amplitude of one sample.

`degree(t, big)` returns (lo, hi): |t| grows at most like c^hi and, for values
known to be positive, at least like c^lo, when the data rows whose sample label is
in `big` are multiplied by c -> infinity.  A sum over the samples is split into
the corrupted sample and the others.  The eigenvalues of a positive semi-definite
sum are bounded below by the terms of the other samples (which are in general
position)."""
import itertools
import numpy as np
import rat as R
import tf

INF = float("inf")


class Growth:
    def __init__(self, data, n):
        self.data, self.n = set(data), n
        self.memo = {}

    def terms(self, t, big, others_only=False):
        """degree of every (term, assignment)"""
        for (ph, fs), c in t.terms:
            bl = []
            for f in fs:
                for s, l in enumerate(f[3]):
                    if isinstance(l, int) and l >= tf.BOUND0 and f[0].dims[s] == self.n and l not in bl:
                        bl.append(l)
            for a in ([()] if others_only else itertools.product((False, True), repeat=len(bl))):
                on = {l for l, x in zip(bl, a) if x} | {l for l in big}
                lo = hi = 0.0
                for node, cj, e, ls in fs:
                    b = frozenset(s for s, l in enumerate(ls) if l in on)
                    x, y = self.node(node, b)
                    e = e.const()
                    if e is None:
                        return None
                    e = float(e)
                    if e < 0:
                        x, y = y, x
                    lo, hi = lo + mul(e, x), hi + mul(e, y)
                yield lo, hi

    def degree(self, t, big=frozenset(), matrix=False):
        key = (t.id, big, matrix)
        r = self.memo.get(key)
        if r is not None:
            return r
        ds = list(self.terms(t, big))
        if not ds:
            r = (0.0, -INF if t.is_zero() else INF)
        else:
            hi = max(h for l, h in ds)
            if matrix:
                d2 = list(self.terms(t, big, True))
                lo = max((l for l, h in d2), default=-INF) if psd_like(t) else -INF
            elif tf.nonneg(t):
                lo = max(l for l, h in ds)
            else:
                lo = ds[0][0] if len(ds) == 1 and len(t.terms) == 1 else -INF
            r = (lo, hi)
        self.memo[key] = r
        return r

    def node(self, node, big):
        k = node.kind
        if node in self.data:
            return (1.0, 1.0) if 0 in big else (0.0, 0.0)
        if k in ("leaf", "delta", "split", "rad", "inj", "rev", "iota", "dummy"):
            return (0.0, 0.0)
        if k == "pw":
            return self.degree(node.info, big)
        if k == "mpow":
            b, e = node.info
            e = e.const()
            if e is None:
                return (-INF, INF)
            e = float(e)
            lo, hi = self.degree(b, big, True)
            return (e * lo, e * hi) if e > 0 else (mul(e, hi), mul(e, lo))
        if k == "fn":
            ds = [self.degree(s, big) for s in node.sub]
            nm = node.args[0]
            if nm == "minimum":
                return min(d[0] for d in ds), min(d[1] for d in ds)
            if nm == "maximum":
                return max(d[0] for d in ds), max(d[1] for d in ds)
            if all(d == (0.0, 0.0) for d in ds):
                return (0.0, 0.0)
            if nm in ("arctan", "tanh", "chi2.cdf", "sign"):
                return (-INF, 0.0)
            return (-INF, INF)
        if not any(x in self.data for s in node.sub for x in tf.walk_nodes(s)):
            return (0.0, 0.0)
        return (-INF, INF)


def mul(e, x):
    if e == 0:
        return 0.0
    return e * x


def psd_like(t):
    """t is similar to a positive semi-definite matrix: t S or S t is, for a fixed S"""
    if tf.psd(t):
        return True
    k = t.n
    for nd in tf.walk_nodes(t):
        if nd.psd and len(nd.dims) == 2 and nd.dims[0] == t.dims[-1] and k == 2:
            S = tf.from_node(nd) if nd.kind != "mpow" else tf.mpow(nd.info[0], nd.info[1])
            for Z in (S, tf.mpow(S, R.const(-1))):
                for A, B in ((t, Z), (Z, t), (t, tf.conj_T(Z)), (tf.conj_T(Z), t)):
                    x = tf.fresh()
                    if tf.psd(tf.contract([(A, [0, x]), (B, [x, 1])], [0, 1], (1, 1), t.dims, {x: t.dims[0]})):
                        return True
    return False


def numeric(t, data, dims, lo=1e4, hi=1e7):
    """growth exponent of the term at random points: (exponent, detail) or (None, why)"""
    import numev
    worst, why = None, ""
    for k, s in enumerate(dims * 2):
        vals = []
        try:
            for c in (lo, hi):
                pt = numev.Point(k, s)
                for d in data:
                    x = np.array(pt.node(d))
                    x[0] = x[0] * c
                    pt.fixed[d] = x
                    pt.memo.clear()
                    pt.tm.clear()
                with np.errstate(all="ignore"):
                    vals.append(np.max(np.abs(pt.T(t))))
        except (numev.NoEval, np.linalg.LinAlgError) as e:
            why = str(e)
            continue
        if not all(np.isfinite(v) and v > 0 for v in vals):
            why = "not finite"
            continue
        g = np.log(vals[1] / vals[0]) / np.log(hi / lo)
        if worst is None or g > worst[0]:
            worst = (g, "grows like c^%.2f at %s" % (g, s))
    return worst if worst else (None, why)
