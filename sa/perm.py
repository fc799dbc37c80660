"""Equivariance of a tensor form under permutations of one axis (the samples)."""
import rat as R
import tf


def sample_slots(node, n):
    return [s for s, d in enumerate(node.dims) if d == n]


OK_KINDS = ("leaf", "delta", "pw", "fn", "mpow", "mfun", "det", "red")


def equivariant(t, n, data, seen=None):
    """None if every use of the axis n is symmetric in the samples, else a reason"""
    seen = seen if seen is not None else set()
    if t.id in seen:
        return None
    seen.add(t.id)
    for (ph, fs), c in t.terms:
        for node, cj, e, ls in fs:
            ss = sample_slots(node, n)
            for s in ss:
                l = ls[s]
                if not isinstance(l, int):
                    return "a fixed sample index %s of %s" % (l[1] if l[0] == "c" else l, node)
            if ss:
                if node.kind == "leaf":
                    if node not in data:
                        return "%s depends on the sample position" % node
                elif node.kind == "op":
                    if node.info[0] not in ("norm", "svdvals"):
                        return "%s on the sample axis" % node.info[0]
                elif node.kind not in OK_KINDS:
                    return "%s on the sample axis" % node.kind
            elif node.kind == "op" and node.info[0] not in ("norm",) and any(
                    d in data for x in node.sub for d in tf.walk_nodes(x)):
                return "operation %s of the data" % node.info[0]
            elif node.kind in ("split", "iota", "inj", "rev") and any(mentions(d, n) for d in node.dims):
                return "%s on a composite axis containing the samples" % node.kind
            for s in node.sub:
                r = equivariant(s, n, data, seen)
                if r:
                    return r
    return None


def mentions(d, n):
    nm = next(iter(R.symbols(n)))
    return nm in R.symbols(d)


def numeric(t, n, data, dims=None, seed=0):
    """random interpretation at X and at a permutation of its samples"""
    import numpy as np
    import numev
    verdict = None
    for k, s in enumerate((dims or numev.DIMS) * 2):
        pt = numev.Point(seed + k, s)
        q = numev.Point(seed + k, s)
        q.syms = pt.syms
        try:
            fx = {}
            for d in data:
                v = np.asarray(pt.leaf(d), dtype=complex)
                for ax in sample_slots(d, n):
                    pm = pt.rng("perm").permutation(v.shape[ax])
                    v = np.take(v, pm, axis=ax)
                fx[d] = v
            q.fixed = fx
            x, y = pt.T(t), q.T(t)
        except (numev.NoEval, np.linalg.LinAlgError) as e:
            continue
        if not (np.all(np.isfinite(x)) and np.all(np.isfinite(y))):
            continue
        for ax, d in enumerate(t.dims):
            if d == n:
                pm = pt.rng("perm").permutation(x.shape[ax])
                x = np.take(x, pm, axis=ax)
        dd = np.max(np.abs(x - y), initial=0)
        if dd > 1e-7 * max(1e-300, np.max(np.abs(x), initial=0)):
            return False, "random interpretation", "reordering the samples changes the value by %.3g" % dd
        verdict = True
    return (verdict, "random interpretation", "")
