"""Tensor normal form: the value domain of the abstract interpreter.

A `T` is a formal sum of terms  coef * i^ph * prod_f node_f(labels)^exp  in
which labels are either free (the axes of the value), bound (contracted), open
(index of an enclosing loop) or constant indices.  Values are hash-consed:
after normalisation, equality of values is identity of objects.
"""
from fractions import Fraction
import rat as R

F0, F1, FH = R.ZERO, R.ONE, R.const(Fraction(1, 2))
BOUND0 = 1000      # labels >= BOUND0 are bound, 0..BOUND0-1 free
NEG1 = R.const(-1)

POS_SYMBOLS = set()          # scalar symbols known > 0
INT_SYMBOLS = set()          # those that are integers (hence >= 1)


INT_MIN = {}                 # smallest value of an integer symbol (1 by default)


def int_shift(a):
    """integer symbols replaced by their smallest value plus a non-negative rest"""
    return {s: R.add(R.sym(s), R.const(INT_MIN.get(s, 1))) for s in R.symbols(a) if s in INT_SYMBOLS}


def positive_int(a):
    return R.positive_int(a, is_pos_sym, INT_SYMBOLS, int_shift(a))


def is_pos_sym(s):
    return s in POS_SYMBOLS


class Unsupported(Exception):
    """The construct is outside what the normal form can express."""


# ---------------------------------------------------------------- nodes
class Node:
    """kind, args: structural key.  dims: one Rat per slot."""
    __slots__ = ("kind", "args", "dims", "real", "herm", "psd", "pos", "unitary",
                 "inv", "id", "sub", "info", "nb")

    def __repr__(self):
        if self.kind == "leaf":
            return self.args[0]
        return "%s#%d" % (self.kind, self.id)


_nodes = {}


def mknode(kind, args, dims, real=False, herm=False, psd=False, pos=False, unitary=False,
           inv=False, sub=(), info=None, nb=0):
    k = (kind, args, tuple(d.key for d in dims))
    n = _nodes.get(k)
    if n is None:
        n = Node()
        n.kind, n.args, n.dims = kind, args, tuple(dims)
        n.real, n.herm, n.psd, n.pos, n.unitary, n.inv = real, herm, psd, pos, unitary, inv or psd or unitary
        n.sub, n.info, n.nb = tuple(sub), info, nb
        n.id = len(_nodes)
        _nodes[k] = n
    return n


def leaf(name, dims, **kw):
    return mknode("leaf", (name,) + tuple(sorted((k, v) for k, v in kw.items() if k not in ("info",))), dims, **kw)


def delta_node(dim):
    return mknode("delta", (), (dim, dim), real=True, herm=True, psd=True, pos=True)


def rad_node(base):
    """fractional/symbolic powers of a positive scalar (Rat)"""
    return mknode("rad", (base.key,), (), real=True, pos=True, info=base)


def inj_node(total, off, size):
    return mknode("inj", (total.key, off.key, size.key), (total, size), real=True, pos=True, info=(total, off, size))


def iota_node(n):
    """iota[k] = k"""
    return mknode("iota", (), (n,), real=True, pos=True)


def split_node(dims):
    """one-hot map of a composite index to its parts: split[m, i1, .., ik]"""
    tot = F1
    for d in dims:
        tot = R.mul(tot, d)
    return mknode("split", tuple(d.key for d in dims), (tot,) + tuple(dims), real=True, pos=True)


def rev_node(n):
    """reversal permutation"""
    return mknode("rev", (), (n, n), real=True, pos=True, herm=True)


# ---------------------------------------------------------------- T
class T:
    __slots__ = ("sizes", "dims", "terms", "id", "_real", "_conj", "_opens")

    @property
    def n(self):
        return len(self.dims)

    @property
    def rank(self):
        return len(self.sizes)

    @property
    def shape(self):
        out, k = [], 0
        for s in self.sizes:
            d = F1
            for x in self.dims[k:k + s]:
                d = R.mul(d, x)
            out.append(d)
            k += s
        return tuple(out)

    def axes(self):
        out, k = [], 0
        for s in self.sizes:
            out.append(tuple(range(k, k + s)))
            k += s
        return tuple(out)

    def is_zero(self):
        return not self.terms

    def __repr__(self):
        return show(self)


_ts = {}


def _intern(sizes, dims, terms):
    """terms: dict key->coef, key=(ph, factors)"""
    items = tuple(sorted(((k, c) for k, c in terms.items()), key=lambda x: _ksort(x[0])))
    k = (sizes, tuple(d.key for d in dims), tuple((a, c.key) for a, c in items))
    t = _ts.get(k)
    if t is None:
        t = T()
        t.sizes, t.dims, t.terms = sizes, tuple(dims), items
        t.id = len(_ts)
        t._real = t._conj = t._opens = None
        _ts[k] = t
    return t


def _lsort(l):
    if isinstance(l, int):
        return (0, l, "")
    return (1, 0, repr(l))


def _ksort(key):
    ph, fs = key
    return (len(fs), ph, tuple((f[0].id, f[1], f[2].key, tuple(_lsort(l) for l in f[3])) for f in fs))


# ------------------------------------------------------- constructing
_fresh = [10 ** 6]


def fresh():
    _fresh[0] += 1
    return _fresh[0]


def build(sizes, dims, raw):
    """raw: iterable of (coef, ph, factors, bound) ; bound: dict label->dim"""
    acc = {}
    n = len(dims)
    for coef, ph, fs, bound in raw:
        for c, p, f in simplify(coef, ph, fs, bound, n):
            k = (p, f)
            x = acc.get(k)
            x = c if x is None else R.add(x, c)
            if x.is_zero():
                acc.pop(k, None)
            else:
                acc[k] = x
    acc = _complete_inj(acc, n)
    return _intern(tuple(sizes), tuple(dims), acc)


def scalar(r):
    if not isinstance(r, R.Rat):
        r = R.const(r)
    return _intern((), (), {(0, ()): r} if not r.is_zero() else {})


def imag_unit():
    return _intern((), (), {(1, ()): F1})


def from_node(node, sizes=None):
    n = len(node.dims)
    return build(sizes or (1,) * n, node.dims, [(F1, 0, [(node, False, F1, tuple(range(n)))], {})])


def from_factor(fac, dims, n):
    return build((1,) * n, dims, [(F1, 0, [fac], {})])


def const_T(shape, r):
    if not isinstance(r, R.Rat):
        r = R.const(r)
    return _intern((1,) * len(shape), tuple(shape), {(0, ()): r} if not r.is_zero() else {})


def eye(n):
    return from_node(delta_node(n))


def with_sizes(t, sizes):
    assert sum(sizes) == t.n
    return _intern(tuple(sizes), t.dims, dict(t.terms))


def flat(t):
    return with_sizes(t, (1,) * t.n)


# ------------------------------------------------------- term simplifier
def _occ(fs):
    o = {}
    for i, f in enumerate(fs):
        for s, l in enumerate(f[3]):
            o.setdefault(l, []).append((i, s))
    return o


def _isint(r):
    c = r.const()
    return c is not None and c.denominator == 1


def mat_slots(node):
    return len(node.dims) - 2


def _sub_label(fs, a, b):
    return [(f[0], f[1], f[2], tuple(b if l == a else l for l in f[3])) if a in f[3] else f for f in fs]


def _mat_base(node):
    """(kind, base T, e) for matrix power/function nodes and Hermitian leaves."""
    if node.kind == "mpow":
        return node.info[0], ("p", node.info[1])
    if node.kind == "mfun":
        return node.info[0], ("f", node.info[1])
    if node.herm and node.kind in ("leaf", "op", "phi") and len(node.dims) == 2 + node.nb:
        return from_node(node), ("p", F1)
    return None, None


def _is_c(l):
    return isinstance(l, tuple) and l[0] == "c"


INDICATOR = ("gt0", "le0", "eq0", "ne0")
PUSH_CONJ = ("pw", "fn", "mpow", "mfun", "det", "red")


class _Zero(Exception):
    pass


def simplify(coef, ph, factors, bound, n):
    """yield (coef, ph, canonical factors)"""
    work = [(coef, ph, list(factors), dict(bound))]
    out = []
    guard = 0
    while work:
        guard += 1
        if guard > 20000:
            raise Unsupported("simplification does not terminate")
        coef, ph, fs, bound = work.pop()
        if coef.is_zero():
            continue
        try:
            r = _simp1(coef, ph, fs, bound, n)
        except _Zero:
            continue
        if r[0] == "expand":
            work.extend(r[1])
        else:
            out.append(r[1])
    return out


def _simp1(coef, ph, fs, bound, n):
    while True:
        if ph >= 2:
            ph -= 2
            coef = R.neg(coef)
        changed = False
        # ---- local normalisation of factors
        new = []
        for node, cj, e, ls in fs:
            ls0 = ls
            if e.is_zero():
                changed = True
                continue
            if cj and node.real:
                cj = False
            if cj and node.herm:
                ls = ls[:-2] + (ls[-1], ls[-2])
                cj = False
            if cj and node.kind in PUSH_CONJ:
                # push the conjugation inside
                t = conj_node_T(node)
                if e != F1:
                    t = tpow(t, e)
                return "expand", _expand_with(coef, ph, fs, (node, True, e, ls0), t, bound)
            if any(d == F1 and not _is_c(l) for d, l in zip(node.dims, ls)):
                ls = tuple(("c", F0) if d == F1 else l for d, l in zip(node.dims, ls))
            if node.real and node.herm and len(ls) >= 2 and _lsort(ls[-1]) < _lsort(ls[-2]):
                ls = ls[:-2] + (ls[-1], ls[-2])
            if node.kind == "iota" and _is_c(ls[0]) and _isint(e) and (e.const() > 0 or not ls[0][1].is_zero()):
                coef = R.mul(coef, R.powi(ls[0][1], int(e.const())))
                continue
            if node.kind == "fn" and node.args[0] in INDICATOR and e != F1:
                k = e.const()
                if k is not None and k > 0:
                    e = F1
            if node.kind == "rad" :
                k = e.const()
                if k is not None:
                    fl = k.numerator // k.denominator
                    if fl:
                        coef = R.mul(coef, R.powi(node.info, fl))
                        e = R.sub(e, R.const(fl))
                        if e.is_zero():
                            continue
            new.append((node, cj, e, ls))
        fs = new
        # ---- deltas
        for i, (node, cj, e, ls) in enumerate(fs):
            if node.kind == "delta":
                a, b = ls
                rest = fs[:i] + fs[i + 1:]
                if a == b:
                    fs = rest
                    changed = True
                    break
                if a in bound or b in bound:
                    if a not in bound:
                        a, b = b, a
                    # replace a (bound) by b
                    del bound[a]
                    fs = _sub_label(rest, a, b)
                    changed = True
                    break
                if _is_c(a) and _is_c(b):
                    d = R.sub(a[1], b[1]).const()
                    if d is not None and d != 0:
                        raise _Zero
                    continue
                # both free/open/const: use the smaller everywhere else
                lo, hi = (a, b) if (_is_c(a) or (not _is_c(b) and _lsort(a) <= _lsort(b))) else (b, a)
                if any(hi in f[3] for f in rest):
                    fs = _sub_label(rest, hi, lo) + [(node, False, F1, tuple(sorted(ls, key=_lsort)))]
                    changed = True
                    break
                if e != F1:
                    fs = rest + [(node, False, F1, ls)]
                    changed = True
                    break
        if changed:
            continue
        # ---- merge equal factors
        seen = {}
        for i, (node, cj, e, ls) in enumerate(fs):
            if node.kind == "delta":
                continue
            k = (node.id, cj, ls)
            if k in seen:
                j = seen[k]
                fs[j] = (node, cj, R.add(fs[j][2], e), ls)
                fs = fs[:i] + fs[i + 1:]
                changed = True
                break
            seen[k] = i
            if node.kind == "det" and node.info[1]:
                k2 = (node.id, not cj, ls)
                if k2 in seen and fs[seen[k2]][2] == e:
                    # |det of a unitary| = 1
                    j = seen[k2]
                    fs = [f for t, f in enumerate(fs) if t not in (i, j)]
                    changed = True
                    break
        if changed:
            continue
        # ---- expand sums raised to positive integers
        for i, (node, cj, e, ls) in enumerate(fs):
            if node.kind == "pw" and _isint(e) and 0 < e.const() <= 4:
                t = node.info
                for _ in range(int(e.const()) - 1):
                    t = mul_T(t, node.info)
                return "expand", _expand_with(coef, ph, fs, fs[i], t, bound)
        # ---- structural rules on bound labels
        r = _rules(coef, fs, bound, n)
        if r is not None:
            if r[0] == "expandf":
                return "expand", _expand_with(coef, ph, r[1], r[2], r[3], bound)
            coef, fs, bound = r
            continue
        break
    # ---- merge networks with their powers
    r = _merge_pw(fs, bound, n)
    if r is not None:
        return "expand", [(coef, ph, r[0], r[1])]
    for l, d in bound.items():
        if not any(l in f[3] for f in fs):
            coef = R.mul(coef, d)
    return "done", (coef, ph, canon(fs, n))


def _expand_with(coef, ph, fs, fac, t, bound):
    """replace factor fac (one occurrence) by the T t (its free labels = fac labels)"""
    rest = list(fs)
    for i, f in enumerate(rest):
        if f is fac or f == fac:
            del rest[i]
            break
    ls = fac[3]
    out = []
    for (p2, f2), c2 in t.terms:
        fs2, b2 = _rename(f2, ls, t)
        b = dict(bound)
        b.update(b2)
        out.append((R.mul(coef, c2), ph + p2, rest + fs2, b))
    return out


def _rename(fs, ls, t=None):
    """rename free labels k -> ls[k], bound labels -> fresh ones"""
    m = {}
    b = {}
    out = []
    for node, cj, e, l in fs:
        nl = []
        for s, x in enumerate(l):
            if isinstance(x, int):
                if x < BOUND0:
                    nl.append(ls[x])
                else:
                    if x not in m:
                        m[x] = fresh()
                        b[m[x]] = node.dims[s]
                    nl.append(m[x])
            else:
                nl.append(x)
        out.append((node, cj, e, tuple(nl)))
    return out, b


def _rules(coef, fs, bound, n):
    occ = _occ(fs)
    for m in list(bound):
        o = occ.get(m)
        if not o:
            continue
        if len(o) == 2 and o[0][0] != o[1][0]:
            (i, s), (j, t) = o
            fi, fj = fs[i], fs[j]
            if fi[2] == F1 and fj[2] == F1:
                r = _pair(fi, s, fj, t)
                if r is not None:
                    if r == 0:
                        raise _Zero
                    rest = [f for k, f in enumerate(fs) if k not in (i, j)]
                    b = dict(bound)
                    del b[m]
                    if isinstance(r, tuple) and r[0] == "T":
                        # (T, labels): splice a value
                        t2, ls = r[1], r[2]
                        if len(t2.terms) == 1:
                            (p2, f2), c2 = t2.terms[0]
                            if p2 == 0:
                                f3, b3 = _rename(f2, ls, t2)
                                b.update(b3)
                                return R.mul(coef, c2), rest + f3, b
                        if not t2.terms:
                            raise _Zero
                        dummy = (_dummy_node(t2), False, F1, tuple(ls))
                        bound.pop(m)
                        return "expandf", rest + [dummy], dummy, t2
                    return coef, rest + list(r), b
        # eigenvector pairs
        r = _eig(m, o, fs, bound)
        if r is not None:
            return coef, r[0], r[1]
        # selection pushed inside elementwise nodes
        for (i, s) in o:
            node = fs[i][0]
            if node.kind == "inj" and s == 0 and fs[i][2] == F1:
                r = _push_inj(m, i, o, fs, bound)
                if r is not None:
                    return coef, r[0], r[1]
    # constant label on an injection
    for i, (node, cj, e, ls) in enumerate(fs):
        if node.kind == "inj":
            total, off, size = node.info
            if _is_c(ls[0]):
                k = R.sub(ls[0][1], off)
                inside = _cmp_lt(k, size)
                low = _cmp_ge0(k)
                if inside is False or low is False:
                    raise _Zero
                if inside and low:
                    rest = fs[:i] + fs[i + 1:]
                    return coef, rest + [(delta_node(size), False, F1, (ls[1], ("c", k)))], bound
            if _is_c(ls[1]):
                rest = fs[:i] + fs[i + 1:]
                return coef, rest + [(delta_node(total), False, F1, (ls[0], ("c", R.add(ls[1][1], off))))], bound
            if size == total:
                rest = fs[:i] + fs[i + 1:]
                return coef, rest + [(delta_node(size), False, F1, ls)], bound
            if e != F1:
                rest = fs[:i] + fs[i + 1:]
                return coef, rest + [(node, cj, F1, ls)], bound
    return None


def _dummy_node(t):
    return mknode("dummy", (t.id,), t.dims, info=t)


def _cmp_lt(a, b):
    """a < b for Rats with positive-integer symbols: True/False/None"""
    d = R.sub(b, a)
    c = d.const()
    if c is not None:
        return c > 0
    if R.positive(d, is_pos_sym):
        return True
    if R.nonneg(R.neg(d), is_pos_sym):
        return False
    # positive-integer symbols are >= 1
    if positive_int(d):
        return True
    return None


def _cmp_ge0(a):
    c = a.const()
    if c is not None:
        return c >= 0
    if R.nonneg(a, is_pos_sym):
        return True
    if R.negative(a, is_pos_sym):
        return False
    x = R.subst(a, int_shift(a))
    if R.nonneg(x, is_pos_sym):
        return True
    return None


def _matfac(f):
    """oriented matrix factor -> (batch labels, row, col) or None"""
    node = f[0]
    if len(f[3]) < 2:
        return None
    return f[3][:-2], f[3][-2], f[3][-1]


def _pair(fi, s, fj, t):
    """two factors share the bound label at slots s, t (and nothing else does)."""
    ni, nj = fi[0], fj[0]
    # --- unitary leaves
    if ni.unitary and nj is ni and s == t and fi[1] != (fj[1]) or \
       (ni.unitary and nj is ni and ni.real and s == t):
        a = fi[3][1 - s]
        b = fj[3][1 - t]
        return [(delta_node(ni.dims[1 - s]), False, F1, (a, b))]
    # --- injections
    if ni.kind == "inj" and nj.kind == "inj":
        (ti, oi, si), (tj, oj, sj) = ni.info, nj.info
        if s == 0 and t == 0:
            if oi == oj and si == sj:
                return [(delta_node(si), False, F1, (fi[3][1], fj[3][1]))]
            # nested or disjoint blocks
            if _cmp_ge0(R.sub(oj, R.add(oi, si))) or _cmp_ge0(R.sub(oi, R.add(oj, sj))):
                return 0
            for (x, y) in ((fi, fj), (fj, fi)):
                (tx, ox, sx), (ty, oy, sy) = x[0].info, y[0].info
                # block y inside block x
                if _cmp_ge0(R.sub(oy, ox)) and _cmp_ge0(R.sub(R.add(ox, sx), R.add(oy, sy))):
                    return [(inj_node(sx, R.sub(oy, ox), sy), False, F1, (x[3][1], y[3][1]))]
            return None
        if s == 1 and t == 0:
            return [(inj_node(ti, R.add(oi, oj), sj), False, F1, (fi[3][0], fj[3][1]))]
        if s == 0 and t == 1:
            return [(inj_node(tj, R.add(oi, oj), si), False, F1, (fj[3][0], fi[3][1]))]
        return None
    # --- split indices
    if ni.kind == "split" and nj is ni and s == 0 and t == 0:
        return [(delta_node(d), False, F1, (a, b)) for d, a, b in zip(ni.dims[1:], fi[3][1:], fj[3][1:])]
    # --- Cholesky factors
    r = _chol_rules(fi, s, fj, t) or _chol_rules(fj, t, fi, s)
    if r is not None:
        return r
    # --- matrix powers
    return _chain_merge(fi, s, fj, t) or _chain_merge(fj, t, fi, s)


def _chol_rules(fi, s, fj, t):
    ni, nj = fi[0], fj[0]
    if ni.kind not in ("chol", "cholinv"):
        return None
    nb = len(ni.dims) - 2
    if s < nb or t < len(nj.dims) - 2:
        return None
    base = ni.info
    if nj.kind in ("chol", "cholinv") and nj.info is base and fi[3][:nb] == fj[3][:nb]:
        oi = fi[3][nb + 1 - (s - nb)]
        oj = fj[3][nb + 1 - (t - nb)]
        bt = fi[3][:nb]
        si, tj = s - nb, t - nb
        if ni is nj and ni.kind == "chol" and si == 1 and tj == 1 and (fi[1] != fj[1]):
            a, b = (oi, oj) if not fi[1] else (oj, oi)
            return ("T", base, bt + (a, b))
        if ni is nj and ni.kind == "cholinv" and si == 0 and tj == 0 and (fi[1] != fj[1]):
            # sum_m conj(Li_mi) Li_mj = (base^-1)_ij
            a, b = (oi, oj) if fi[1] else (oj, oi)
            return ("T", mpow(base, NEG1), bt + (a, b))
        if ni.kind != nj.kind and fi[1] == fj[1] and si != tj:
            return [(delta_node(ni.dims[-1]), False, F1, (oi, oj))]
        if ni.real and ni is nj and si == tj:
            if ni.kind == "chol" and si == 1:
                return ("T", base, bt + (oi, oj))
            if ni.kind == "cholinv" and si == 0:
                return ("T", mpow(base, NEG1), bt + (oi, oj))
        return None
    b2, pw = _mat_base(nj)
    if b2 is base and pw[0] == "p" and fi[3][:nb] == fj[3][:nb]:
        bt = fi[3][:nb]
        oi = fi[3][nb + 1 - (s - nb)]
        oj = fj[3][nb + 1 - (t - nb)]
        si, tj = s - nb, t - nb
        ch, ci = chol_node(base), cholinv_node(base)
        real = ni.real
        # base^-1 L = L^-H : (base^-1)_{o m} L_{m j}
        if ni.kind == "chol" and si == 0 and pw[1] == NEG1:
            if (tj == 1 and not fi[1]) or real:
                return [(ci, True, F1, bt + (oi, oj))]
            if tj == 0 and fi[1]:
                return [(ci, False, F1, bt + (oi, oj))]
        # base L^-H = L : base_{o m} conj(Li)_{j m}
        if ni.kind == "cholinv" and si == 1 and pw[1] == F1:
            if (tj == 1 and fi[1]) or real:
                return [(ch, False, F1, bt + (oj, oi))]
            if tj == 0 and not fi[1]:
                return [(ch, True, F1, bt + (oj, oi))]
    return None


def _chain_merge(fi, s, fj, t):
    """fi column index contracted with fj row index"""
    ni, nj = fi[0], fj[0]
    li, lj = len(ni.dims), len(nj.dims)
    if li < 2 or lj < 2:
        return None
    if s < li - 2 or t < lj - 2:
        return None
    bi, pi = _mat_base(ni)
    bj, pj = _mat_base(nj)
    nbi = li - 2
    sym_i = ni.real and ni.herm
    sym_j = nj.real and nj.herm
    if bi is not None and bj is bi and fi[3][:-2] == fj[3][:-2]:
        # orientation: i uses col (slot -1), j uses row (slot -2)
        ok = (s == li - 1 or sym_i) and (t == lj - 2 or sym_j)
        if ok and not fi[1] and not fj[1]:
            a = fi[3][-2] if s == li - 1 else fi[3][-1]
            b = fj[3][-1] if t == lj - 2 else fj[3][-2]
            if pi[0] == "p" and pj[0] == "p":
                if pi[1] == F1 and pj[1] == F1:
                    return None         # powers 2, 3, ... stay products
                e = R.add(pi[1], pj[1])
                return ("T", mpow(bi, e), fi[3][:-2] + (a, b))
            f = mul_T(_fun_with(pi, pj, fi[0]), _fun_with(pj, pi, fi[0]))
            return ("T", mfun(bi, f), fi[3][:-2] + (a, b))
        return None
    # general invertible matrix with its inverse node
    for (x, sx, y, sy) in ((fi, s, fj, t), (fj, t, fi, s)):
        nx, ny = x[0], y[0]
        if ny.kind == "mpow" and not ny.herm and not (nx.kind == "mpow" and nx.info[0] is ny.info[0]):
            if len(x[3]) != len(y[3]):
                continue
            # matrix of x, row = contracted?  compare x (as matrix with axes (slot order)) with base
            e = ny.info[1]
            if e != NEG1:
                continue
            nb = len(y[3]) - 2
            if x[3][:nb] != y[3][:nb] or sx < nb or sy < nb:
                continue
            tx = build((1,) * len(nx.dims), nx.dims, [(F1, 0, [(nx, x[1], F1, tuple(range(len(nx.dims))))], {})])
            base = ny.info[0]
            for tr in (False, True):
                tb = transpose_last(base) if tr else base
                if tb is tx:
                    # x = base (or base^T): inverse pairs when contracted on opposite slots
                    sy_eff = (sy - nb) if not tr else 1 - (sy - nb)
                    if (sx - nb) != sy_eff:
                        a = x[3][nb + 1 - (sx - nb)]
                        b = y[3][nb + 1 - (sy - nb)]
                        return [(delta_node(nx.dims[-1]), False, F1, (a, b))]
    return None


def _fun_of(p, b, f):
    """the function of the eigenvalues of b that p stands for; f is applied to its result"""
    if p[0] == "p":
        e = p[1].const()
        even = e is not None and e.denominator == 1 and e % 2 == 0
        return tpow(fun_var(psd(b) or not (even or _open_var(f))), p[1])
    return p[1]


def _fun_with(p, other, node):
    """_fun_of next to another function of the same matrix"""
    if p[0] == "p":
        o = other[1] if other[0] != "p" else None
        if o is not None:
            return tpow(fun_var(not _open_var(o)), p[1])
        return tpow(fun_var(psd(_mat_base(node)[0])), p[1])
    return p[1]


def fun_var(pos=True):
    """an eigenvalue; positive when those of the matrix are"""
    return from_node(leaf("$d", (), real=True, pos=pos))


def _open_var(f):
    return any(nd.kind == "leaf" and nd.args[0] == "$d" and not nd.pos for nd in walk_nodes(f))


def _dep_eig(node, base, nb):
    """node is a function (of one label) of the eigenvalues of base only -> T in $d, else None"""
    if node.kind == "eigval" and node.info is base:
        return fun_var(node.pos)
    if node.kind in ("pw", "fn"):
        return _eig_T(node.info if node.kind == "pw" else None, node, base, nb)
    return None


def _eig_T(t, node, base, nb):
    # only nodes whose slots are exactly the eigenvalue slots (batch..., m)
    if len(node.dims) != nb + 1:
        return None
    ev = eigval_node(base)
    env = {ev: lambda: None}

    def conv(tt):
        # every label of tt must be used through eigval(base) with all its labels, in order
        if tt.n == 0:
            if any(f[0].sub or f[0].dims for (p, fs), c in tt.terms for f in fs):
                return None
            return tt
        full = tuple(range(tt.n))
        if tt.n != nb + 1:
            return None
        acc = scalar(0)
        for (ph, fs), c in tt.terms:
            term = _intern((), (), {(ph, ()): c})
            for f in fs:
                if f[0] is ev and f[3] == full:
                    x = fun_var(ev.pos)
                elif f[0].kind == "pw" and f[3] == full:
                    x = conv(f[0].info)
                elif f[0].kind == "fn" and f[3] == full:
                    args = []
                    for a in f[0].sub:
                        y = conv(a)
                        if y is None:
                            return None
                        args.append(y)
                    x = fn(f[0].args[0], args, f[0].info[1])
                elif f[0].dims == () and not f[0].sub:
                    x = from_node(f[0])
                else:
                    return None
                if x is None:
                    return None
                term = mul_T(term, tpow(x, f[2]))
            acc = add_T(acc, term)
        return acc
    return conv(from_node(node))


def _eig(m, o, fs, bound):
    """U_{im} conj(U_{jm}) prod f(d_m) -> mfun(base)_{ij}"""
    us = [(i, s) for (i, s) in o if fs[i][0].kind == "eigvec" and s == len(fs[i][0].dims) - 1]
    if len(us) != 2:
        # rows: U_{mi} conj U_{mj}
        ur = [(i, s) for (i, s) in o if fs[i][0].kind == "eigvec" and s == len(fs[i][0].dims) - 2]
        if len(ur) == 2 and len(o) == 2:
            (i, s), (j, t) = ur
            fi, fj = fs[i], fs[j]
            if fi[0] is fj[0] and fi[3][:-2] == fj[3][:-2] and (fi[1] != fj[1] or fi[0].real) and fi[2] == F1 == fj[2]:
                rest = [f for k, f in enumerate(fs) if k not in (i, j)]
                b = dict(bound)
                del b[m]
                return rest + [(delta_node(fi[0].dims[-1]), False, F1, (fi[3][-1], fj[3][-1]))], b
        return None
    (i, s), (j, t) = us
    fi, fj = fs[i], fs[j]
    if fi[0] is not fj[0] or fi[3][:-2] != fj[3][:-2] or i == j:
        return None
    if not (fi[1] != fj[1] or fi[0].real) or fi[2] != F1 or fj[2] != F1:
        return None
    base = fi[0].info
    nb = len(fi[0].dims) - 2
    bt = fi[3][:-2]
    f = scalar(1)
    used = {i, j}
    for (k, sl) in o:
        if k in used:
            continue
        fk = fs[k]
        if fk[3] != bt + (m,):
            return None
        g = _dep_eig(fk[0], base, nb)
        if g is None:
            return None
        f = mul_T(f, tpow(g, fk[2]))
        used.add(k)
    rest = [x for k, x in enumerate(fs) if k not in used]
    b = dict(bound)
    del b[m]
    a, c = (fi[3][-2], fj[3][-2]) if not fi[1] else (fj[3][-2], fi[3][-2])
    t2 = mfun(base, f)
    # splice (single-term results are spliced directly, others through a dummy)
    if len(t2.terms) == 1 and t2.terms[0][0][0] == 0:
        (p2, f2), c2 = t2.terms[0]
        f3, b3 = _rename(f2, bt + (a, c), t2)
        b.update(b3)
        if c2 != F1:
            f3 = f3 + [(rad_node(c2), False, F1, ())]
        return rest + f3, b
    if not t2.terms:
        raise _Zero
    return rest + [(pw_node(t2), False, F1, bt + (a, c))], b


def _push_inj(m, i, o, fs, bound):
    """inj(m, j) with m otherwise only in elementwise nodes that contain injections"""
    inj = fs[i]
    others = [(k, s) for (k, s) in o if k != i]
    if not others:
        return None
    new = list(fs)
    done = False
    for k, s in others:
        f = fs[k]
        if f[0].kind in ("pw", "fn", "mpow", "det") and f[0].kind in ("pw", "fn") and _has_inj(f[0]):
            args = f[0].sub
            sel = []
            for a in args:
                sel.append(select_block(a, s, inj[0].info))
            if f[0].kind == "pw":
                t = tpow(sel[0], f[2])
            else:
                t = tpow(fn(f[0].args[0], sel, f[0].info[1]), f[2])
            if len(t.terms) != 1 or t.terms[0][0][0] != 0:
                t = from_node(pw_node(t)) if False else t
            new[k] = ("T", t, tuple(f[3][x] if x != s else inj[3][1] for x in range(len(f[3]))))
            done = True
        else:
            return None
    if not done:
        return None
    b = dict(bound)
    del b[m]
    out = []
    for k, f in enumerate(new):
        if k == i:
            continue
        if f[0] == "T":
            t, ls = f[1], f[2]
            if not t.terms:
                raise _Zero
            if len(t.terms) == 1 and t.terms[0][0][0] == 0:
                (p2, f2), c2 = t.terms[0]
                f3, b3 = _rename(f2, ls, t)
                b.update(b3)
                if c2 != F1:
                    f3 = f3 + [(rad_node(c2), False, F1, ())]
                out.extend(f3)
            else:
                out.append((pw_node(t), False, F1, ls))
        else:
            out.append(f)
    return out, b


_inj_memo = {}


def _has_inj(node):
    r = _inj_memo.get(node.id)
    if r is None:
        r = node.kind == "inj" or any(_has_inj(f[0]) for t in node.sub for (p, fs), c in t.terms for f in fs)
        _inj_memo[node.id] = r
    return r


def select_block(t, lab, info):
    """restrict free label lab of t to block (total, off, size)"""
    total, off, size = info
    ls = list(range(t.n))
    b = fresh()
    dims = list(t.dims)
    dims[lab] = size
    raw = []
    for (ph, fs), c in t.terms:
        f2, b2 = _rename(fs, [b if k == lab else k for k in ls])
        b2 = dict(b2)
        b2[b] = total
        raw.append((c, ph, f2 + [(inj_node(total, off, size), False, F1, (b, lab))], b2))
    return build(t.sizes if sum(t.sizes) == t.n else (1,) * t.n, dims, raw)


def _complete_inj(acc, n):
    """sum_k inj_k(f,j) inj_k(g,j) x = delta(f,g) x, and x[:p] stacked on x[p:] = x."""
    while True:
        groups = {}
        for key, c in acc.items():
            ph, fs = key
            occ = _occ(fs)
            for l, o in occ.items():
                if isinstance(l, int) and l >= BOUND0 and len(o) == 2:
                    (i, s), (j, t) = o
                    if s == 1 and t == 1 and fs[i][0].kind == "inj" and fs[j][0] is fs[i][0]:
                        total, off, size = fs[i][0].info
                        rest = [f for k, f in enumerate(fs) if k not in (i, j)]
                        a, b = sorted((fs[i][3][0], fs[j][3][0]), key=_lsort)
                        # signature of the term without the block
                        dn = mknode("blk", (total.key,), (total, total), real=True)
                        sig = (ph, canon(rest + [(dn, False, F1, (a, b))], n), c.key)
                        groups.setdefault(sig, []).append((key, total, off, size, rest, a, b, c, ph))
        hit = None
        for sig, L in groups.items():
            byoff = {}
            for x in L:
                byoff.setdefault((x[2].key, x[3].key), x)
            # exact partition of total?
            items = list(byoff.values())
            cur = F0
            order = []
            while True:
                nx = [x for x in items if x[2] == cur and x not in order]
                if not nx:
                    break
                order.append(nx[0])
                cur = R.add(cur, nx[0][3])
                if cur == nx[0][1]:
                    break
            if order and cur == order[0][1] and len(order) > 1 and len({x[0] for x in order}) == len(order):
                hit = order
                break
        if not hit:
            return acc
        acc = dict(acc)
        for x in hit:
            acc.pop(x[0], None)
        key, total, off, size, rest, a, b, c, ph = hit[0]
        bd = {}
        for f in rest:
            for s, l in enumerate(f[3]):
                if isinstance(l, int) and l >= BOUND0:
                    bd[l] = f[0].dims[s]
        for l in (a, b):
            if isinstance(l, int) and l >= BOUND0:
                bd[l] = total
        for c2, p2, f2 in simplify(c, ph, rest + [(delta_node(total), False, F1, (a, b))], bd, n):
            k2 = (p2, f2)
            x = acc.get(k2)
            x = c2 if x is None else R.add(x, c2)
            if x.is_zero():
                acc.pop(k2, None)
            else:
                acc[k2] = x


# ------------------------------------------------------- network powers
def _components(fs, cut):
    """connected components of factor indices through bound labels not in cut"""
    par = list(range(len(fs)))

    def find(x):
        while par[x] != x:
            par[x] = par[par[x]]
            x = par[x]
        return x
    seen = {}
    for i, f in enumerate(fs):
        for l in f[3]:
            if isinstance(l, int) and l >= BOUND0 and l not in cut:
                if l in seen:
                    par[find(i)] = find(seen[l])
                else:
                    seen[l] = i
    comp = {}
    for i in range(len(fs)):
        comp.setdefault(find(i), []).append(i)
    return list(comp.values())


def _merge_pw(fs, bound, n):
    """replace exp-1 copies of a network N next to pw(N)^e by pw(N)^(e+1)."""
    for i, (node, cj, e, ls) in enumerate(fs):
        if node.kind != "pw":
            continue
        base = node.info
        if len(base.terms) != 1:
            continue
        cut = {l for l in ls if isinstance(l, int)}
        others = [k for k in range(len(fs)) if k != i]
        sub = [fs[k] for k in others]
        for comp in _components(sub, cut):
            cf = [sub[k] for k in comp]
            labs = set()
            inner = set()
            for f in cf:
                for l in f[3]:
                    if isinstance(l, int) and l >= BOUND0 and l not in cut:
                        inner.add(l)
                    else:
                        labs.add(l)
            if not inner:
                continue
            if labs - set(ls) or len(ls) != len(set(ls)):
                continue
            m = {l: k for k, l in enumerate(ls)}
            g = [(f[0], f[1], f[2], tuple(m.get(l, l) for l in f[3])) for f in cf]
            if canon(g, len(ls)) == base.terms[0][0][1] and base.terms[0][0][0] == 0:
                keep = [sub[k] for k in range(len(sub)) if k not in comp]
                keep.append((node, cj, R.add(e, F1), ls))
                b = {l: d for l, d in bound.items() if l not in inner}
                return keep, b
    return None


# ------------------------------------------------------- canonical labelling
_canon_memo = {}


def canon(fs, n):
    """canonical tuple of factors, bound labels renumbered from BOUND0"""
    if not fs:
        return ()
    # quick local renumbering for the memo key
    bl = []
    seen = set()
    for f in fs:
        for l in f[3]:
            if isinstance(l, int) and l >= BOUND0 and l not in seen:
                seen.add(l)
                bl.append(l)
    if not bl:
        return tuple(sorted(fs, key=_fkey))
    m0 = {l: BOUND0 + k for k, l in enumerate(bl)}
    fs = [(f[0], f[1], f[2], tuple(m0.get(l, l) if isinstance(l, int) else l for l in f[3])) for f in fs]
    mk = tuple((f[0].id, f[1], f[2].key, f[3]) for f in fs)
    r = _canon_memo.get(mk)
    if r is None:
        r = _canon_memo[mk] = _canon(fs, [m0[l] for l in bl])
    return r


def _fkey(f):
    return (f[0].id, f[1], f[2].key, tuple(_lsort(l) for l in f[3]))


def _canon(fs, bl):
    sigs = [hash((f[0].id, f[1], f[2].key)) for f in fs]
    col = {l: 0 for l in bl}

    def lab(l):
        if isinstance(l, int) and l >= BOUND0:
            return (1, col[l])
        return (0, hash(l) if isinstance(l, int) else hash(repr(l)))

    occ = {l: [] for l in bl}
    for i, f in enumerate(fs):
        for s, l in enumerate(f[3]):
            if l in occ:
                occ[l].append((i, s))

    def refine():
        nonlocal col
        ncls = len(set(col.values()))
        while True:
            fcol = []
            for i, f in enumerate(fs):
                ls = [lab(l) for l in f[3]]
                if f[0].real and f[0].herm and len(ls) >= 2:
                    ls = ls[:-2] + sorted(ls[-2:])
                fcol.append(hash((sigs[i], tuple(ls))))
            new = {}
            for l in bl:
                new[l] = hash((col[l], tuple(sorted(
                    (fcol[i], 0 if (fs[i][0].real and fs[i][0].herm and s >= len(fs[i][3]) - 2) else s)
                    for i, s in occ[l]))))
            k = len(set(new.values()))
            col = new
            if k == ncls:
                return
            ncls = k

    best = None

    def search():
        nonlocal col, best
        refine()
        cls = {}
        for l in bl:
            cls.setdefault(col[l], []).append(l)
        tie = [c for c in sorted(cls) if len(cls[c]) > 1]
        if not tie:
            order = sorted(bl, key=lambda l: col[l])
            m = {l: BOUND0 + k for k, l in enumerate(order)}
            g = []
            for f in fs:
                ls = tuple(m.get(l, l) if isinstance(l, int) else l for l in f[3])
                if f[0].real and f[0].herm and len(ls) >= 2 and _lsort(ls[-1]) < _lsort(ls[-2]):
                    ls = ls[:-2] + (ls[-1], ls[-2])
                g.append((f[0], f[1], f[2], ls))
            g.sort(key=_fkey)
            # renumber by first appearance for readability
            m2 = {}
            for f in g:
                for l in f[3]:
                    if isinstance(l, int) and l >= BOUND0 and l not in m2:
                        m2[l] = BOUND0 + len(m2)
            g2 = []
            for f in g:
                ls = tuple(m2.get(l, l) if isinstance(l, int) else l for l in f[3])
                if f[0].real and f[0].herm and len(ls) >= 2 and _lsort(ls[-1]) < _lsort(ls[-2]):
                    ls = ls[:-2] + (ls[-1], ls[-2])
                g2.append((f[0], f[1], f[2], ls))
            g2 = tuple(sorted(g2, key=_fkey))
            k = tuple(_fkey(f) for f in g2)
            if best is None or k < best[0]:
                best = (k, g2)
            return
        c = tie[0]
        save = dict(col)
        for l in cls[c]:
            col = dict(save)
            col[l] = hash((c, "x"[0] == "x", 7919))
            search()
        col = save
    search()
    return best[1]


# ------------------------------------------------------- operations
def contract(parts, out, sizes, dims, bound):
    """parts: [(T, labels)] ; out: list of labels (the free ones, in order)"""
    m = {l: k for k, l in enumerate(out)}
    raw = [(F1, 0, [], {})]
    for t, ls in parts:
        ls2 = [m.get(l, l) for l in ls]
        nxt = []
        for (c, ph, fs, b) in raw:
            for (p2, f2), c2 in t.terms:
                f3, b3 = _rename(f2, ls2)
                b4 = dict(b)
                b4.update(b3)
                nxt.append((R.mul(c, c2), ph + p2, fs + f3, b4))
        raw = nxt
    raw = [(c, ph, fs, {**b, **bound}) for c, ph, fs, b in raw]
    return build(sizes, dims, raw)


def add_T(a, b, s=1):
    assert a.sizes == b.sizes, (a.sizes, b.sizes)
    acc = dict(a.terms)
    for k, c in b.terms:
        if s == -1:
            c = R.neg(c)
        x = acc.get(k)
        x = c if x is None else R.add(x, c)
        if x.is_zero():
            acc.pop(k, None)
        else:
            acc[k] = x
    acc = _complete_inj(acc, a.n)
    return _intern(a.sizes, a.dims, acc)


def sub_T(a, b):
    return add_T(a, b, -1)


def scale_T(a, r):
    if not isinstance(r, R.Rat):
        r = R.const(r)
    if r.is_zero():
        return _intern(a.sizes, a.dims, {})
    return _intern(a.sizes, a.dims, {k: R.mul(c, r) for k, c in a.terms})


def mul_i(a):
    return build(a.sizes, a.dims, [(c, ph + 1, list(fs), _bounds(fs)) for (ph, fs), c in a.terms])


def _bounds(fs):
    b = {}
    for f in fs:
        for s, l in enumerate(f[3]):
            if isinstance(l, int) and l >= BOUND0:
                b[l] = f[0].dims[s]
    return b


def mul_T(a, b):
    """elementwise product of values with identical axes"""
    if a.n == 0 and len(a.terms) == 1 and a.terms[0][0] == (0, ()):
        return scale_T(b, a.terms[0][1]) if b.n == 0 else scale_T(b, a.terms[0][1])
    if b.n == 0 and len(b.terms) == 1 and b.terms[0][0] == (0, ()):
        return scale_T(a, b.terms[0][1])
    if b.n == 0 and a.n:
        a, b = b, a
    if a.n == 0 and b.n:
        ls = list(range(b.n))
        return contract([(a, []), (b, ls)], ls, b.sizes, b.dims, {})
    assert a.sizes == b.sizes, (a.sizes, b.sizes)
    ls = list(range(a.n))
    return contract([(a, ls), (b, ls)], ls, a.sizes, a.dims, {})


def conj_T(t):
    if t._conj is None:
        raw = []
        for (ph, fs), c in t.terms:
            if ph % 2:
                c = R.neg(c)
            raw.append((c, ph, [(f[0], not f[1], f[2], f[3]) for f in fs], _bounds(fs)))
        t._conj = build(t.sizes, t.dims, raw)
        t._conj._conj = t
    return t._conj


def is_real(t):
    return conj_T(t) is t


def transpose_last(t):
    """swap the last two labels (rank-2 tail, non composite)"""
    n = t.n
    perm = list(range(n))
    perm[-1], perm[-2] = perm[-2], perm[-1]
    return permute(t, perm)


def permute(t, perm):
    """labels: new label k is old label perm[k]; sizes all 1"""
    inv = {p: k for k, p in enumerate(perm)}
    ls = [inv[k] for k in range(t.n)]
    return contract([(t, ls)], list(range(t.n)), (1,) * t.n, [t.dims[p] for p in perm], {})


def permute_axes(t, perm):
    ax = t.axes()
    lab = [l for p in perm for l in ax[p]]
    r = permute(flat(t), lab)
    return with_sizes(r, tuple(t.sizes[p] for p in perm))


def herm_T(t):
    return conj_T(transpose_last(t))


def real_part(t):
    if is_real(t):
        return t
    return scale_T(add_T(t, conj_T(t)), FH)


def imag_part(t):
    if is_real(t):
        return _intern(t.sizes, t.dims, {})
    return scale_T(mul_i(sub_T(t, conj_T(t))), R.neg(FH))


def pw_node(t):
    """node for elementwise powers of the value t (t monic)"""
    return mknode("pw", (t.id,), t.dims, real=is_real(t), pos=nonneg(t), sub=(t,), info=t)


# prime factorisation of rational constants
def _primes(n):
    out = {}
    p = 2
    while p * p <= n:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def rat_atoms(r):
    """positive Rat -> list of (Rat atom, int exponent)"""
    out = []

    def poly(p, s):
        p2, c = R.pmonic(p)
        for q, e in _primes(abs(Fraction(c)).numerator).items():
            out.append((R.const(q), s * e))
        for q, e in _primes(Fraction(c).denominator).items():
            out.append((R.const(q), -s * e))
        if len(p2) == 1:
            (m, _), = p2.items()
            for v, e in m:
                out.append((R.sym(v), s * e))
        else:
            g = None
            for m in p2:
                d = dict(m)
                g = d if g is None else {v: min(e, d.get(v, 0)) for v, e in g.items()}
            mono = {tuple(sorted((v, e) for v, e in g.items() if e)): Fraction(1)}
            for v, e in g.items():
                if e:
                    out.append((R.sym(v), s * e))
            rest = R.pdiv_exact(p2, mono)
            rt = R.psqrt(rest)
            if rt is not None:
                q = R._mk(rt, {(): Fraction(1)})
                q = q if R.positive(q, is_pos_sym) else R.neg(q)
                if R.positive(q, is_pos_sym):
                    out.append((q, 2 * s))
                    return
            out.append((R._mk(rest, {(): Fraction(1)}), s))
    poly(r.n, 1)
    poly(r.d, -1)
    return out


def _rat_pow(r, e):
    """(coef, rad factors) of r^e, or None if r is not provably positive"""
    k = e.const()
    if k is not None and k.denominator == 1:
        if r.is_zero() and k < 0:
            return None
        return R.powi(r, int(k)), []
    if not R.positive(r, is_pos_sym):
        return None
    fs = []
    for a, m in rat_atoms(r):
        fs.append((rad_node(a), False, R.mul(e, R.const(m)), ()))
    return F1, fs


_tpow_memo = {}


def tpow(t, e):
    if not isinstance(e, R.Rat):
        e = R.const(e)
    k = (t.id, e.key)
    r = _tpow_memo.get(k)
    if r is None:
        r = _tpow_memo[k] = _tpow(t, e)
    return r


def _tpow(t, e):
    if e == F1:
        return t
    if e.is_zero():
        return _intern(t.sizes, t.dims, {(0, ()): F1})
    sizes = t.sizes
    t = flat(t)
    c = e.const()
    isint = c is not None and c.denominator == 1
    if t.is_zero():
        if c is not None and c > 0:
            return with_sizes(t, sizes)
        raise Unsupported("power of zero")
    if len(t.terms) == 1:
        (ph, fs), co = t.terms[0]
        out = []
        left = []
        if ph:
            left.append("ph")
        cp = _rat_pow(co, e)
        lc = F1
        if cp is None:
            # keep the sign inside
            if R.negative(co, is_pos_sym):
                cp = _rat_pow(R.neg(co), e)
                lc = NEG1
            else:
                cp = (F1, [])
                lc = co
        lf = []
        for comp in _components(fs, set()):
            cf = [fs[k] for k in comp]
            hasb = any(isinstance(l, int) and l >= BOUND0 for f in cf for l in f[3])
            if not hasb:
                for f in cf:
                    if f[0].kind == "delta":
                        if c is not None and c > 0:
                            out.append(f)
                        else:
                            lf.append(f)
                    elif isint or node_nonneg(f[0]):
                        out.append((f[0], f[1], R.mul(f[2], e), f[3]))
                    else:
                        lf.append(f)
            else:
                labs = []
                for f in cf:
                    for l in f[3]:
                        if not (isinstance(l, int) and l >= BOUND0) and l not in labs:
                            labs.append(l)
                labs.sort(key=_lsort)
                m = {l: k for k, l in enumerate(labs)}
                dm = {}
                for f in cf:
                    for s, l in enumerate(f[3]):
                        dm[l] = f[0].dims[s]
                bt = build((1,) * len(labs), [dm[l] for l in labs],
                           [(F1, 0, [(f[0], f[1], f[2], tuple(m.get(l, l) for l in f[3])) for f in cf], _bounds(cf))])
                nn = nonneg(bt)
                if isint and c > 0 and c <= 4:
                    for _ in range(int(c)):
                        f2, _b = _rename(_as_single(bt), labs)
                        out.extend(f2)
                elif isint or nn:
                    out.append((pw_node(bt), False, e, tuple(labs)))
                else:
                    f2, _b = _rename(_as_single(bt), labs)
                    lf.extend(f2)
        if ph and isint:
            # i^k
            k4 = int(c) % 4
            ph2, neg = k4 % 2, k4 >= 2
            co2 = cp[0]
            if neg:
                co2 = R.neg(co2)
            ph_out = ph2
            left = []
        else:
            co2, ph_out = cp[0], 0
        if (lf or left or lc != F1):
            lt = build((1,) * t.n, t.dims, [(lc, 1 if left else 0, lf, _bounds(lf))])
            if isint:
                raise Unsupported("integer power with leftover")
            out.append(_pw_factor(lt, e))
        out = list(out) + cp[1]
        r = build((1,) * t.n, t.dims, [(co2, ph_out, out, _bounds(out))])
        return with_sizes(r, sizes)
    # several terms
    if isint and 0 < c <= 3:
        r = t
        for _ in range(int(c) - 1):
            r = mul_T(r, t)
        return with_sizes(r, sizes)
    # common factors
    common, mono = _common(t, isint)
    c0 = mono.terms[0][1]
    sign = F1
    if not isint:
        if R.negative(c0, is_pos_sym):
            sign = NEG1
            c0 = R.neg(c0)
        elif not R.positive(c0, is_pos_sym):
            c0 = F1
    cp = _rat_pow(c0, e)
    if cp is None:
        cp = (F1, [])
    else:
        mono = scale_T(mono, R.inv(c0))
    out = [(f[0], f[1], R.mul(f[2], e), f[3]) for f in common]
    # (sign stays inside: sign*mono has leading coefficient +-1)
    fac = _pw_factor(mono, e)
    out = out + [fac] + cp[1]
    r = build((1,) * t.n, t.dims, [(cp[0], 0, out, _bounds(out))])
    return with_sizes(r, sizes)


def _as_single(t):
    if len(t.terms) != 1 or t.terms[0][0][0] != 0 or t.terms[0][1] != F1:
        raise Unsupported("component is not a single network")
    return t.terms[0][0][1]


def _common(t, isint):
    """common unbound factors of all terms (min exponent) -> (factors, quotient)"""
    cand = None
    for (ph, fs), c in t.terms:
        cur = {}
        for f in fs:
            if any(isinstance(l, int) and l >= BOUND0 for l in f[3]) or f[0].kind == "delta":
                continue
            if not (isint or node_nonneg(f[0])):
                continue
            cur[(f[0], f[1], f[3])] = f[2]
        if cand is None:
            cand = cur
        else:
            nxt = {}
            for k, e in cand.items():
                if k in cur:
                    d = R.sub(e, cur[k]).const()
                    if d is None:
                        if e == cur[k]:
                            nxt[k] = e
                    else:
                        nxt[k] = e if d <= 0 else cur[k]
            cand = nxt
        if not cand:
            break
    # factors absent from some term but with negative exponent elsewhere
    neg = {}
    for (ph, fs), c in t.terms:
        for f in fs:
            if any(isinstance(l, int) and l >= BOUND0 for l in f[3]) or f[0].kind == "delta":
                continue
            if not (isint or node_nonneg(f[0])):
                continue
            k = (f[0], f[1], f[3])
            ec = f[2].const()
            if ec is not None and ec < 0 and k not in cand:
                neg[k] = f[2] if k not in neg or neg[k].const() > ec else neg[k]
    cand = dict(cand)
    for k, e in neg.items():
        cand[k] = e
    common = [(k[0], k[1], e, k[2]) for k, e in cand.items()]
    if not common:
        return [], t
    raw = []
    for (ph, fs), c in t.terms:
        raw.append((c, ph, list(fs) + [(f[0], f[1], R.neg(f[2]), f[3]) for f in common], _bounds(fs)))
    return common, build(t.sizes, t.dims, raw)


def _pw_factor(t, e):
    """factor pw(t restricted to its used labels)^e"""
    used = used_labels(t)
    if len(used) == t.n and not has_outer(t):
        return (pw_node(t), False, e, tuple(range(t.n)))
    r, labs = restrict(t)
    return (pw_node(r), False, e, tuple(labs))


def used_labels(t):
    s = set()
    for (ph, fs), c in t.terms:
        for f in fs:
            for l in f[3]:
                if isinstance(l, int) and l < BOUND0:
                    s.add(l)
    return s


def has_outer(t):
    return any(not isinstance(l, int) for (ph, fs), c in t.terms for f in fs for l in f[3])


def outer_labels(t):
    s = {}
    for (ph, fs), c in t.terms:
        for f in fs:
            for k, l in enumerate(f[3]):
                if not isinstance(l, int) and not (l[0] == "c" and f[0].dims[k] == F1):
                    s[l] = f[0].dims[k]
    return s


def restrict(t):
    """drop unused labels, turn open/constant labels into free ones.
    returns (T, labels) with labels[k] = the label of t standing at k"""
    used = sorted(used_labels(t))
    outer = outer_labels(t)
    labs = used + sorted(outer, key=_lsort)
    m = {l: k for k, l in enumerate(labs)}
    dims = [t.dims[l] if isinstance(l, int) else outer[l] for l in labs]
    raw = []
    for (ph, fs), c in t.terms:
        raw.append((c, ph, [(f[0], f[1], f[2], tuple(m.get(l, l) for l in f[3])) for f in fs], _bounds(fs)))
    return build((1,) * len(labs), dims, raw), labs


# ------------------------------------------------------- elementwise functions
COMM = {"minimum", "maximum", "logical_and", "logical_or", "eq", "ne"}
REAL_FN = {"gt0", "le0", "eq0", "ne0", "abs", "lt", "le", "eq", "ne", "gt", "ge", "isfinite", "angle", "logical_and", "logical_or",
           "logical_not", "sign", "floor", "ceil", "round"}
POS_FN = {"gt0", "le0", "eq0", "ne0", "exp", "abs", "cosh"}


def fn(name, args, extra=()):
    """elementwise function node over broadcast-compatible values (same axes)."""
    args = list(args)
    n = max(a.n for a in args)
    ref = next(a for a in args if a.n == n)
    args = [a if a.n == n else lift_scalar(a, ref) for a in args]
    sizes = ref.sizes
    r = _fn_simplify(name, args, extra)
    if r is not None:
        return r
    # restrict labels jointly
    used = set()
    outer = {}
    for a in args:
        used |= used_labels(a)
        outer.update(outer_labels(a))
    labs = sorted(used) + sorted(outer, key=_lsort)
    m = {l: k for k, l in enumerate(labs)}
    dims = [ref.dims[l] if isinstance(l, int) else outer[l] for l in labs]
    sub = []
    for a in args:
        raw = [(c, ph, [(f[0], f[1], f[2], tuple(m.get(l, l) for l in f[3])) for f in fs], _bounds(fs))
               for (ph, fs), c in a.terms]
        sub.append(build((1,) * len(labs), dims, raw))
    if name in COMM:
        sub.sort(key=lambda x: x.id)
    real = name in REAL_FN or all(is_real(a) for a in sub)
    pos = name in POS_FN and real or (name in ("minimum",) and all(nonneg(a) for a in sub)) \
        or (name == "maximum" and any(nonneg(a) for a in sub)) \
        or (name == "where" and all(nonneg(a) for a in sub[1:])) or name in ("chi2.cdf", "chi2.ppf")
    node = mknode("fn", (name, tuple(a.id for a in sub), tuple(extra)), dims, real=real, pos=pos,
                  sub=sub, info=(name, tuple(extra)))
    t = build((1,) * ref.n, ref.dims, [(F1, 0, [(node, False, F1, tuple(labs))], {})])
    return with_sizes(t, sizes)


def lift_scalar(a, ref):
    return _intern(ref.sizes, ref.dims, dict(a.terms))


def _is_scalar_const(t):
    """T is a constant Rat times ones -> Rat or None"""
    if t.is_zero():
        return F0
    if len(t.terms) == 1 and t.terms[0][0] == (0, ()):
        return t.terms[0][1]
    return None


def const_num(t):
    """the number a scalar form without symbols stands for, or None"""
    import math
    tot = 0.0
    for (ph, fs), c in t.terms:
        k = c.const()
        if ph or k is None:
            return None
        x = float(k)
        for f in fs:
            if f[3] or f[0].kind not in ("rad", "logc") or f[2].const() is None or f[0].info.const() is None:
                return None
            b = float(f[0].info.const())
            x *= (b if f[0].kind == "rad" else math.log(b)) ** float(f[2].const())
        tot += x
    return tot


def _fn_simplify(name, args, extra):
    a = args[0]
    if name in ("floor", "ceil", "trunc", "rint") and not a.is_zero() and _is_scalar_const(a) is None:
        x = const_num(a)
        if x is not None and abs(2 * x - round(2 * x)) > 1e-6:
            import math
            r = {"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "rint": round}[name](x)
            return _intern(a.sizes, a.dims, {(0, ()): R.const(r)} if r else {})
    if name == "log":
        if len(a.terms) == 1:
            (ph, fs), c = a.terms[0]
            if ph == 0 and R.positive(c, is_pos_sym):
                comps = _components(fs, set())
                if c != F1 or len(comps) > 1 or (len(comps) == 1 and len(comps[0]) == 1 and fs[comps[0][0]][2] != F1) \
                        or (fs and fs[0][0].kind == "fn" and fs[0][0].args[0] == "exp"):
                    parts = []
                    ok = True
                    for comp in comps:
                        cf = [fs[k] for k in comp]
                        if len(cf) == 1 and not any(isinstance(l, int) and l >= BOUND0 for l in cf[0][3]):
                            if not node_nonneg(cf[0][0]):
                                ok = False
                                break
                            parts.append((cf[0][2], [(cf[0][0], cf[0][1], F1, cf[0][3])]))
                        else:
                            bt = build(a.sizes, a.dims, [(F1, 0, cf, _bounds(cf))])
                            if not nonneg(bt):
                                ok = False
                                break
                            parts.append((F1, cf))
                    if ok:
                        out = _intern(a.sizes, a.dims, {})
                        for at, m in rat_atoms(c):
                            if at == F1:
                                continue
                            x = fn("log", [build(a.sizes, a.dims, [(F1, 0, [(rad_node(at), False, F1, ())], {})])]) \
                                if False else _log_atom(at, a)
                            out = add_T(out, scale_T(x, R.const(m)))
                        for e, cf in parts:
                            if len(cf) == 1 and cf[0][0].kind == "fn" and cf[0][0].args[0] == "exp" \
                                    and is_real(from_node(cf[0][0])):
                                y = cf[0][0].sub[0]
                                x = contract([(flat(y), list(cf[0][3]))], list(range(a.n)), a.sizes, a.dims, {})
                            else:
                                bt = build(a.sizes, a.dims, [(F1, 0, cf, _bounds(cf))])
                                x = _fn_raw("log", bt)
                            out = add_T(out, scale_T(x, e))
                        return out
    if name == "exp":
        if a.is_zero():
            return _intern(a.sizes, a.dims, {(0, ()): F1})
        if len(a.terms) == 1:
            (ph, fs), c = a.terms[0]
            if ph == 0 and len(fs) == 1 and fs[0][0].kind == "fn" and fs[0][0].args[0] == "log" and fs[0][2] == F1 \
                    and c.const() is not None:
                y = fs[0][0].sub[0]
                t = contract([(flat(y), list(fs[0][3]))], list(range(a.n)), a.sizes, a.dims, {})
                return tpow(t, c)
    if name in ("minimum", "maximum") and len(args) == 2:
        if args[0] is args[1]:
            return args[0]
        x, y = _is_scalar_const(args[0]), _is_scalar_const(args[1])
        if x is not None and y is not None and x.const() is not None and y.const() is not None:
            lo, hi = (args[0], args[1]) if x.const() <= y.const() else (args[1], args[0])
            return lo if name == "minimum" else hi
        # positive common scaling:  min(c a, c b) = c min(a, b)
        s = add_T(args[0], scale_T(args[1], R.sym("$s")))
        if all(len(x.terms) for x in args):
            common, q = _common(s, False)
            common = [f for f in common if node_nonneg(f[0])]
            if common:
                b0 = [build(x.sizes, x.dims, [(c, ph, list(fs) + [(f[0], f[1], R.neg(f[2]), f[3]) for f in common], _bounds(fs))
                                              for (ph, fs), c in x.terms]) for x in args]
                cf = build(a.sizes, a.dims, [(F1, 0, common, {})])
                return mul_T(cf, fn(name, b0))
    if name == "where":
        cond, u, v = args
        if u is v:
            return u
        r = _where_minmax(cond, u, v)
        if r is not None:
            return r
    if name == "where" and False:
        pass
    if name == "abs":
        if nonneg(a):
            return a
        if nonneg(scale_T(a, NEG1)):
            return scale_T(a, NEG1)
        return tpow(mul_T(a, conj_T(a)), FH)
    if name == "sign" and nonneg(a) and False:
        return None
    return None


def _fn_raw(name, a):
    used = used_labels(a)
    outer = outer_labels(a)
    labs = sorted(used) + sorted(outer, key=_lsort)
    m = {l: k for k, l in enumerate(labs)}
    dims = [a.dims[l] if isinstance(l, int) else outer[l] for l in labs]
    raw = [(c, ph, [(f[0], f[1], f[2], tuple(m.get(l, l) for l in f[3])) for f in fs], _bounds(fs))
           for (ph, fs), c in a.terms]
    s = build((1,) * len(labs), dims, raw)
    node = mknode("fn", (name, (s.id,), ()), dims, real=is_real(s), pos=False, sub=(s,), info=(name, ()))
    t = build((1,) * a.n, a.dims, [(F1, 0, [(node, False, F1, tuple(labs))], {})])
    return with_sizes(t, a.sizes)


def _log_atom(at, ref):
    node = mknode("logc", (at.key,), (), real=True, info=at)
    return build(ref.sizes, ref.dims, [(F1, 0, [(node, False, F1, ())], {})])


def _where_minmax(cond, u, v):
    """where(a<=b, u, v) with u/v == a/b (all positive), or u-v == k(a-b): min / max"""
    if len(cond.terms) != 1:
        return None
    (ph, fs), c = cond.terms[0]
    if ph or len(fs) != 1 or c != F1 or fs[0][0].kind != "fn" or fs[0][2] != F1:
        return None
    nm = fs[0][0].args[0]
    if nm not in ("lt", "le", "gt", "ge"):
        return None
    labs = list(fs[0][3])
    a, b = [contract([(flat(y), labs)], list(range(u.n)), u.sizes, u.dims, {}) for y in fs[0][0].sub]
    if nm in ("gt", "ge"):
        a, b = b, a          # a < b form
    if mul_T(u, b) is mul_T(a, v) and nonneg(a) and nonneg(b) and nonneg(u) and nonneg(v):
        return fn("minimum", [u, v])
    if mul_T(u, a) is mul_T(b, v) and nonneg(a) and nonneg(b) and nonneg(u) and nonneg(v):
        return fn("maximum", [u, v])
    d, e = sub_T(u, v), sub_T(a, b)
    if d is e:
        return fn("minimum", [u, v])
    if d is scale_T(e, NEG1):
        return fn("maximum", [u, v])
    return None


# ------------------------------------------------------- matrix functions
def _prefix(t, side):
    """invertible matrix factor adjacent to the row (side 0) / column (side 1) label
    common to every term -> (node, conj, batch, transposed) or None.
    t: labels (batch..., row, col)"""
    lab = t.n - 2 + side
    res = None
    for (ph, fs), c in t.terms:
        occ = [(i, s) for i, f in enumerate(fs) for s, l in enumerate(f[3]) if l == lab]
        if len(occ) != 1:
            return None
        i, s = occ[0]
        f = fs[i]
        node = f[0]
        if f[2] != F1 or len(f[3]) < 2 or s < len(f[3]) - 2:
            return None
        if not (node.inv and node.dims[-1] == node.dims[-2]):
            return None
        other = f[3][-1] if s == len(f[3]) - 2 else f[3][-2]
        if not (isinstance(other, int) and other >= BOUND0):
            return None
        # bridge label: occurs exactly twice
        if sum(1 for g in fs for l in g[3] if l == other) != 2:
            return None
        # transposed when the row label sits in the column slot (or vice versa)
        tr = (s == len(f[3]) - 1) if side == 0 else (s == len(f[3]) - 2)
        if node.real and node.herm:
            tr = False
        k = (node, f[1], f[3][:-2], tr)
        if res is None:
            res = k
        elif res != k:
            return None
    return res


def _matT(node, cj, batch, tr, ref):
    """T (batch..., row, col) of an oriented matrix factor"""
    n = ref.n
    ls = tuple(batch) + ((n - 1, n - 2) if tr else (n - 2, n - 1))
    dims = list(ref.dims)
    dims[-2], dims[-1] = (node.dims[-1], node.dims[-2]) if tr else (node.dims[-2], node.dims[-1])
    return build((1,) * n, dims, [(F1, 0, [(node, cj, F1, ls)], {})])


def matmul_T(a, b):
    """(batch..., i, k) x (batch..., k, j)"""
    n = a.n
    assert a.n == b.n
    bt = list(range(n - 2))
    m = fresh()
    dims = list(a.dims[:-1]) + [b.dims[-1]]
    return contract([(flat(a), bt + [n - 2, m]), (flat(b), bt + [m, n - 1])], list(range(n)), (1,) * n, dims,
                    {m: a.dims[-1]})


def inv_node_T(node, cj, batch, tr, ref):
    """inverse of an invertible matrix factor, as T"""
    if node.unitary:
        # inverse = conj transpose
        return _matT(node, not cj if not node.real else cj, batch, not tr, ref)
    if node.kind == "chol":
        return _matT(cholinv_node(node.info), cj, batch, tr, ref)
    if node.kind == "cholinv":
        return _matT(chol_node(node.info), cj, batch, tr, ref)
    b, p = _mat_base(node)
    if b is not None and p[0] == "p":
        t = mpow(b, R.neg(p[1]))
    elif b is not None and p[0] == "f":
        t = mfun(b, tpow(p[1], NEG1))
    else:
        # general invertible leaf
        n0 = from_node(node)
        t = _raw_mpow(n0, NEG1)
    nb = node.nb
    ls = list(batch) + ([ref.n - 1, ref.n - 2] if tr else [ref.n - 2, ref.n - 1])
    dims = list(ref.dims)
    dims[-1] = dims[-2] = node.dims[-1]
    r = contract([(t, ls)], list(range(ref.n)), (1,) * ref.n, dims, {})
    return conj_T(r) if cj else r


_mp_memo = {}


def mpow(base, e):
    if not isinstance(e, R.Rat):
        e = R.const(e)
    k = ("p", base.id, e.key)
    r = _mp_memo.get(k)
    if r is None:
        _mp_open.add(k)
        try:
            r = _mp_memo[k] = _mpow(flat(base), e)
        finally:
            _mp_open.discard(k)
    return r


_mp_open = set()


def mfun(base, f):
    """spectral function f (a T in $d) of the matrix value base"""
    # pure powers
    if len(f.terms) == 1:
        (ph, fs), c = f.terms[0]
        if ph == 0 and (not fs or (len(fs) == 1 and fs[0][0].kind == "leaf" and fs[0][0].args[0] == "$d")):
            e = fs[0][2] if fs else F0
            return scale_T(mpow(base, e), c)
        if ph == 0 and fs:
            sc = [x for x in fs if not _mentions_d(x[0])]
            if (sc or c != F1) and len(sc) < len(fs):
                g = build((), (), [(F1, 0, [x for x in fs if _mentions_d(x[0])], {})])
                r = mfun(base, g)
                s = build((), (), [(c, 0, sc, {})])
                return mul_T(s, r)
    if not f.terms:
        return _intern((1,) * base.n, base.dims, {})
    if len(f.terms) > 1:
        r = None
        for (ph, fs), c in f.terms:
            x = mfun(base, build((), (), [(c, ph, list(fs), {})]))
            r = x if r is None else add_T(r, x)
        return r
    k = ("f", base.id, f.id)
    r = _mp_memo.get(k)
    if r is None:
        r = _mp_memo[k] = _mfun(flat(base), f)
    return r


def _mentions_d(node):
    if node.kind == "leaf":
        return node.args[0] == "$d"
    return any(_mentions_d(f[0]) for t in node.sub for (p, fs), c in t.terms for f in fs)


def _diag_form(t):
    """t = v_i delta(i,j) (every term carries delta(row,col)) -> v (batch..., i) or None"""
    n = t.n
    raw = []
    for (ph, fs), c in t.terms:
        d = [f for f in fs if f[0].kind == "delta" and set(f[3]) == {n - 2, n - 1}]
        if not d:
            return None
        rest = [f for f in fs if f is not d[0]]
        rest = _sub_label(rest, n - 1, n - 2)
        raw.append((c, ph, rest, _bounds(rest)))
    return build((1,) * (n - 1), t.dims[:-1], raw)


def _undiag(v, n, dims):
    ls = list(range(n - 1))
    return contract([(v, ls), (eye(dims[-1]), [n - 2, n - 1])], list(range(n)), (1,) * n, dims, {})


def _scalar_split(t):
    """t = s * rest with s scalar over batch labels (single-term coefficient and unconnected factors)"""
    if len(t.terms) == 1:
        (ph, fs), c = t.terms[0]
        n = t.n
        sc, mt = [], []
        for comp in _components(fs, set()):
            cf = [fs[k] for k in comp]
            if any(l in (n - 2, n - 1) for f in cf for l in f[3]):
                mt.extend(cf)
            else:
                sc.extend(cf)
        s = build((1,) * (n - 2), t.dims[:-2], [(c, 0, sc, _bounds(sc))])
        rest = build((1,) * n, t.dims, [(F1, ph, mt, _bounds(mt))])
        return s, rest
    # several terms: common scalar factors
    common, q = _common(t, False)
    n = t.n
    common = [f for f in common if not any(l in (n - 2, n - 1) for l in f[3])]
    if common:
        raw = []
        for (ph, fs), c in t.terms:
            raw.append((c, ph, list(fs) + [(f[0], f[1], R.neg(f[2]), f[3]) for f in common], _bounds(fs)))
        q = build(t.sizes, t.dims, raw)
    else:
        q = t
    c0 = q.terms[0][1]
    if not R.positive(c0, is_pos_sym):
        c0 = F1
    q = scale_T(q, R.inv(c0))
    s = build((1,) * (n - 2), t.dims[:-2], [(c0, 0, common, {})])
    return s, q


def _bmul(s, m):
    """multiply matrix value m (batch..., i, j) by s (batch...)"""
    n = m.n
    return contract([(s, list(range(n - 2))), (m, list(range(n)))], list(range(n)), (1,) * n, m.dims, {})


def _rotate(t, allow=2000):
    """canonical similarity rotation of t: returns (list of prefix Ts, core)"""
    pre = []
    seen = {t.id}
    best = (_size(t), t.id)
    cur = t
    cand = [(best, [], t)]
    for _ in range(8):
        p = _prefix(cur, 0)
        if p is None:
            break
        P = _matT(*p, cur)
        Pi = inv_node_T(*p, cur)
        nxt = matmul_T(matmul_T(Pi, cur), P)
        if nxt.id in seen:
            break
        seen.add(nxt.id)
        pre = pre + [p]
        cur = nxt
        cand.append(((_size(cur), cur.id), list(pre), cur))
    cand.sort(key=lambda x: x[0])
    # prefer the smallest word; ties broken by a structural key independent of creation order
    m = cand[0][0][0]
    ties = [x for x in cand if x[0][0] == m]
    if len(ties) > 1:
        ties.sort(key=lambda x: _word_key(x[2]))
    return ties[0][1], ties[0][2]


def _size(t):
    return sum(len(fs) for (ph, fs), c in t.terms)


def _word_key(t):
    return tuple(sorted(_ksort(k) for k, c in t.terms))


def _wrap(pre, core_res, t):
    """P1..Pk core Pk^-1..P1^-1"""
    r = core_res
    for p in reversed(pre):
        r = matmul_T(matmul_T(_matT(*p, t), r), inv_node_T(*p, t))
    return r


def _kron_split(t):
    """single-term value whose row/col labels... (only used on composite matrices) -> None"""
    return None


def _mpow(base, e):
    n = base.n
    if e == F1:
        return base
    if e.is_zero():
        r = eye(base.dims[-1])
        return contract([(r, [n - 2, n - 1])], list(range(n)), (1,) * n, base.dims, {})
    if base.is_zero():
        raise Unsupported("power of the zero matrix")
    if outer_labels(base):
        r, labs = restrict_mat(base)
        x = mpow(r, e)
        return contract([(x, labs)], list(range(n)), (1,) * n, base.dims, {})
    if base.n > 2 and not set(range(n - 2)) <= used_labels(base):
        r, labs = restrict_mat(base)
        if r.n < n:
            x = mpow(r, e)
            return contract([(x, labs)], list(range(n)), (1,) * n, base.dims, {})
    v = _diag_form(base)
    if v is not None:
        return _undiag(tpow(v, e), n, base.dims)
    s, m = _scalar_split(base)
    if not (s.n == 0 and _is_scalar_const(s) == F1) and _is_scalar_const(s) != F1:
        return _bmul(tpow(s, e), mpow(m, e))
    if e.const() is not None and e.const().denominator == 1 and e.const() > 0:
        r = base
        for _ in range(int(e.const()) - 1):
            r = matmul_T(r, base)
        return r
    if e == NEG1:
        # strip invertible factors from both ends
        for side in (0, 1):
            p = _prefix(base, side)
            if p is not None:
                Pi = inv_node_T(*p, base)
                rest = matmul_T(Pi, base) if side == 0 else matmul_T(base, Pi)
                if _size(rest) >= _size(base):            # the factor did not cancel
                    continue
                return matmul_T(mpow(rest, e), Pi) if side == 0 else matmul_T(Pi, mpow(rest, e))
    k = _single_node(base)
    if k is not None:
        node, cj, tr = k
        if node.unitary or node.kind in ("chol", "cholinv"):
            if e == NEG1:
                return inv_node_T(node, cj, tuple(range(n - 2)), tr, base)
        b, p = _mat_base(node)
        if b is not None:
            if node.kind in ("mpow", "mfun"):
                if p[0] == "p":
                    r = mpow(b, R.mul(p[1], e))
                else:
                    r = mfun(b, tpow(p[1], e))
                return transpose_last(r) if tr else r
            if tr:
                return transpose_last(mpow(b, e))
    if e != NEG1:
        pre, core = _rotate(base)
        if pre and ("p", core.id, e.key) not in _mp_open:
            return _wrap(pre, mpow(core, e), base)
    return _raw_mpow(base, e)


def _single_node(t):
    if len(t.terms) != 1:
        return None
    (ph, fs), c = t.terms[0]
    if ph or c != F1 or len(fs) != 1 or fs[0][2] != F1:
        return None
    n = t.n
    f = fs[0]
    if f[3] == tuple(range(n)):
        return f[0], f[1], False
    if f[3] == tuple(range(n - 2)) + (n - 1, n - 2):
        return f[0], f[1], True
    return None


def restrict_mat(t):
    """make open/constant labels batch labels; drop unused batch labels; keep row/col last"""
    n = t.n
    used = sorted(l for l in used_labels(t) if l < n - 2)
    outer = outer_labels(t)
    labs = used + sorted(outer, key=_lsort) + [n - 2, n - 1]
    m = {l: k for k, l in enumerate(labs)}
    dims = [t.dims[l] if isinstance(l, int) else outer[l] for l in labs]
    raw = []
    for (ph, fs), c in t.terms:
        raw.append((c, ph, [(f[0], f[1], f[2], tuple(m.get(l, l) for l in f[3])) for f in fs], _bounds(fs)))
    return build((1,) * len(labs), dims, raw), labs


def is_herm(t):
    if t.dims[-1] != t.dims[-2]:
        return False
    f = flat(t)
    return herm_T(f) is f or psd(f)


def _raw_mpow(base, e):
    n = base.n
    h = is_herm(base)
    if not h:
        tb = transpose_last(base)
        if _word_key(tb) < _word_key(base):
            return transpose_last(_raw_mpow(tb, e))
    pd = h and psd(base)
    node = mknode("mpow", (base.id, e.key), base.dims, real=is_real(base), herm=h, psd=pd, inv=True,
                  sub=(base,), info=(base, e), nb=n - 2)
    return from_node(node)


def _mfun(base, f):
    n = base.n
    if base.is_zero():
        v = subst_d(f, scalar(0))
        return mul_T(v, contract([(eye(base.dims[-1]), [n - 2, n - 1])], list(range(n)), (1,) * n, base.dims, {}))
    if outer_labels(base) or (n > 2 and not set(range(n - 2)) <= used_labels(base)):
        r, labs = restrict_mat(base)
        x = mfun(r, f)
        return contract([(x, labs)], list(range(n)), (1,) * n, base.dims, {})
    v = _diag_form(base)
    if v is not None:
        return _undiag(subst_d(f, v), n, base.dims)
    k = _single_node(base)
    if k is not None and k[0].kind in ("mpow", "mfun"):
        b, p = _mat_base(k[0])
        r = mfun(b, subst_d(f, _fun_of(p, b, f)))
        return transpose_last(r) if k[2] else r
    # f(c B) for logarithms is left as is; rotation
    pre, core = _rotate(base)
    if pre:
        return _wrap(pre, mfun(core, f), base)
    h = is_herm(base)
    if not h:
        tb = transpose_last(base)
        if _word_key(tb) < _word_key(base):
            return transpose_last(mfun(tb, f))
    fpos = nonneg(f)
    node = mknode("mfun", (base.id, f.id), base.dims, real=is_real(base), herm=h, psd=h and fpos, inv=fpos,
                  sub=(base, f), info=(base, f), nb=n - 2)
    return from_node(node)


def subst_d(f, v):
    # f has no labels; result has the labels of v
    acc = None
    for (ph, fs), c in f.terms:
        term = _intern(v.sizes, v.dims, {(ph, ()): c})
        for node, cj, e, ls in fs:
            if node.kind == "leaf" and node.args[0] == "$d":
                x = v
            elif not _mentions_d(node):
                x = build(v.sizes, v.dims, [(F1, 0, [(node, cj, F1, ())], {})])
            elif node.kind == "pw":
                x = subst_d(node.info, v)
            elif node.kind == "fn":
                x = fn(node.args[0], [subst_d(a, v) for a in node.sub], node.info[1])
            else:
                raise Unsupported("spectral function")
            term = mul_T(term, tpow(x, e))
        acc = term if acc is None else add_T(acc, term)
    return acc if acc is not None else _intern(v.sizes, v.dims, {})


def chol_node(base):
    return mknode("chol", (base.id,), base.dims, real=is_real(base), inv=True, sub=(base,), info=base, nb=base.n - 2)


def cholinv_node(base):
    return mknode("cholinv", (base.id,), base.dims, real=is_real(base), inv=True, sub=(base,), info=base, nb=base.n - 2)


def eigvec_node(base):
    return mknode("eigvec", (base.id,), base.dims, real=is_real(base), sub=(base,), info=base, nb=base.n - 2)


def eigval_node(base):
    return mknode("eigval", (base.id,), base.dims[:-1], real=True, pos=psd(base), sub=(base,), info=base, nb=base.n - 2)


def eigh_T(base):
    base = flat(base)
    if outer_labels(base):
        r, labs = restrict_mat(base)
        d, q = eigh_T(r)
        n = base.n
        q2 = contract([(q, labs)], list(range(n)), (1,) * n, base.dims, {})
        d2 = contract([(d, labs[:-1])], list(range(n - 1)), (1,) * (n - 1), base.dims[:-1], {})
        return d2, q2
    return from_node(eigval_node(base)), from_node(eigvec_node(base))


def cholesky_T(base):
    base = flat(base)
    if outer_labels(base):
        r, labs = restrict_mat(base)
        n = base.n
        return contract([(cholesky_T(r), labs)], list(range(n)), (1,) * n, base.dims, {})
    s, m = _scalar_split(base)
    if _is_scalar_const(s) != F1:
        return _bmul(tpow(s, FH), cholesky_T(m))
    if _diag_form(base) is not None:
        return mpow(base, FH)
    return from_node(chol_node(base))


_det_memo = {}


def det_T(base):
    r = _det_memo.get(base.id)
    if r is None:
        r = _det_memo[base.id] = _det(flat(base))
    return r


def _det(base):
    n = base.n
    if outer_labels(base):
        r, labs = restrict_mat(base)
        return contract([(det_T(r), labs[:-2])], list(range(n - 2)), (1,) * (n - 2), base.dims[:-2], {})
    d = base.dims[-1]
    v = _diag_form(base)
    if v is not None:
        # product over the label
        if not (n - 2) in used_labels(v):
            v2 = contract([(v, list(range(n - 1)))], list(range(n - 1)), v.sizes, v.dims, {})
            w = _intern((1,) * (n - 2), base.dims[:-2], dict(v2.terms))
            return tpow(w, d)
        return reduce_T("prod", v, [n - 2])
    s, m = _scalar_split(base)
    if _is_scalar_const(s) != F1:
        return mul_T(tpow(s, d), det_T(m))
    for side in (0, 1):
        p = _prefix(base, side)
        if p is not None:
            Pi = inv_node_T(*p, base)
            P = _matT(*p, base)
            rest = matmul_T(Pi, base) if side == 0 else matmul_T(base, Pi)
            return mul_T(det_T(P), det_T(rest))
    k = _single_node(base)
    if k is not None:
        node, cj, tr = k
        if node.kind == "mpow":
            return tpow(det_T(node.info[0]), node.info[1])
        if node.kind == "chol":
            return tpow(det_T(node.info), FH)
        if node.kind == "cholinv":
            return tpow(det_T(node.info), R.neg(FH))
    h = is_herm(base)
    if not h:
        tb = transpose_last(base)
        if _word_key(tb) < _word_key(base):
            return det_T(tb)
    uni = k is not None and k[0].unitary
    node = mknode("det", (base.id,), base.dims[:-2], real=h or is_real(base), pos=h and psd(base), sub=(base,),
                  info=(base, uni), nb=n - 2)
    return from_node(node)


def reduce_T(name, t, labs, extra=()):
    """generic symmetric reduction over labels (max, min, prod, any, all)"""
    keep = [l for l in range(t.n) if l not in labs]
    u, ul = restrict(t)
    # restricted value: labels ul; reduction over those in labs
    red = [k for k, l in enumerate(ul) if l in labs]
    missing = [l for l in labs if l not in ul]
    kept = [k for k in range(u.n) if k not in red]
    if not red and name in ("max", "min", "any", "all", "mean", "median"):
        return contract([(t, [keep.index(l) if l in keep else fresh() for l in range(t.n)])],
                        list(range(len(keep))), (1,) * len(keep), [t.dims[k] for k in keep], {}) if False else \
            _intern((1,) * len(keep), [t.dims[k] for k in keep], dict(
                build((1,) * len(keep), [t.dims[k] for k in keep],
                      [(c, ph, [(f[0], f[1], f[2], tuple(keep.index(l) if isinstance(l, int) and l < BOUND0 else l for l in f[3]))
                                for f in fs], _bounds(fs)) for (ph, fs), c in t.terms]).terms))
    node = mknode("red", (name, u.id, tuple(red), tuple(m.key for m in (t.dims[l] for l in missing))) + tuple(extra),
                  [u.dims[k] for k in kept], real=is_real(u) or name in ("any", "all"),
                  pos=nonneg(u), sub=(u,), info=(name, tuple(red), tuple(t.dims[l] for l in missing), tuple(extra)))
    nl = []
    for k in kept:
        l = ul[k]
        nl.append(keep.index(l) if isinstance(l, int) else l)
    return build((1,) * len(keep), [t.dims[k] for k in keep], [(F1, 0, [(node, False, F1, tuple(nl))], {})])


def op_T(name, args, dims, extra=(), **flags):
    """opaque operation (uninterpreted function of its arguments)"""
    node = mknode("op", (name, tuple(a.id for a in args), tuple(extra)), dims, sub=tuple(args),
                  info=(name, tuple(extra)), **flags)
    return from_node(node)


# ------------------------------------------------------- conj of nodes
def conj_node_T(node):
    """conjugate of a compound node as a T over its slots"""
    if node.kind == "pw":
        return conj_T(node.info)      # caller raises to the exponent
    if node.kind == "fn":
        return fn_as_node(node, [conj_T(a) for a in node.sub])
    if node.kind == "mpow":
        return mpow(conj_T(node.info[0]), node.info[1])
    if node.kind == "mfun":
        return mfun(conj_T(node.info[0]), node.info[1])
    if node.kind == "det":
        return det_T(conj_T(node.info[0]))
    if node.kind == "red":
        nm, red, miss, extra = node.info
        return _red_rebuild(node, conj_T(node.sub[0]))
    raise Unsupported("conjugate of %s" % node.kind)


def fn_as_node(node, args):
    t = fn(node.args[0], [flat(a) for a in args], node.info[1])
    return t


def _red_rebuild(node, sub):
    nm, red, miss, extra = node.info
    return reduce_T(nm, sub, list(red), extra)


# conj of eigvec/chol/phi leaves stays a flag: mark them as having no pushable sub
def _conj_flag_kinds():
    return ("eigvec", "chol", "cholinv", "leaf", "op", "dummy")


# ------------------------------------------------------- sign analysis
_nn_memo = {}


def node_nonneg(node):
    return node.pos


def nonneg(t):
    """provably elementwise >= 0 (real)"""
    r = _nn_memo.get(t.id)
    if r is None:
        _nn_memo[t.id] = False
        r = _nn_memo[t.id] = all(_term_nonneg(ph, fs, c, ()) for (ph, fs), c in t.terms)
    return r


_psd_memo = {}


def psd(t):
    """provably Hermitian positive semi-definite in its last two labels"""
    k = t.id
    r = _psd_memo.get(k)
    if r is None:
        _psd_memo[k] = False
        n = t.n
        r = _psd_memo[k] = n >= 2 and t.dims[-1] == t.dims[-2] and bool(t.terms) and \
            all(_term_nonneg(ph, fs, c, (n - 2, n - 1)) for (ph, fs), c in t.terms)
    return r


def _term_nonneg(ph, fs, c, swap):
    if ph or not R.nonneg(c, is_pos_sym):
        return False
    fs = list(fs)
    if swap:
        # a factor whose exponent is one and whose labels are exactly (.., row, col) or delta
        pass
    if _mirror(fs, swap):
        return True
    gs = _join_means(fs)
    return gs is not None and _mirror(gs, swap)


_mean_memo = {}


def _join_means(fs):
    """replace S <K>^e (S and S K positive semi-definite) and <K>^e S (S and K S positive
    semi-definite) by one positive semi-definite factor: it equals
    S^1/2 (S^1/2 K S^-1/2)^e S^1/2, whose middle matrix is positive semi-definite"""
    fs = list(fs)
    done = False
    again = True
    while again:
        again = False
        for i, f in enumerate(fs):
            if f[0].kind != "mpow" or f[2] != F1 or len(f[3]) != 2 or f[0].herm:
                continue
            for side in (0, 1):
                l = f[3][side]
                if not (isinstance(l, int) and l >= BOUND0) or f[3][1 - side] == l:
                    continue
                us = [k for k, g in enumerate(fs) if l in g[3]]
                if len(us) != 2:
                    continue
                j = us[0] if us[1] == i else us[1]
                g = fs[j]
                if not g[0].psd or g[2] != F1 or len(g[3]) != 2 or g[3][0] == g[3][1]:
                    continue
                other = g[3][0] if g[3][1] == l else g[3][1]
                flip = (g[3][0] == l) == (side == 0)
                gc = bool(g[1]) != flip and not g[0].real
                key = (f[0].id, bool(f[1]), g[0].id, gc, side)
                lf = _mean_memo.get(key)
                if lf is None:
                    S = from_node(g[0])
                    if gc:
                        S = conj_T(S)
                    K = f[0].info[0]
                    if f[1]:
                        K = conj_T(K)
                    x = fresh()
                    A, B = (S, K) if side == 0 else (K, S)
                    ok = psd(contract([(A, [0, x]), (B, [x, 1])], [0, 1], (1, 1), K.dims, {x: K.dims[0]}))
                    lf = _mean_memo[key] = leaf("mean%s" % (key,), K.dims, herm=True, psd=True,
                                                real=f[0].real and g[0].real) if ok else False
                if lf is False:
                    continue
                lab = (other, f[3][1]) if side == 0 else (f[3][0], other)
                fs = [h for k, h in enumerate(fs) if k not in (i, j)] + [(lf, 0, F1, lab)]
                done = again = True
                break
            if again:
                break
    return fs if done else None


def _even(e):
    k = e.const()
    return k is not None and k.denominator == 1 and k % 2 == 0


def _mirror(fs, swap):
    """search an involution of labels mapping the network to its conjugate, fixing
    only PSD matrices (with swapped labels) and non-negative factors."""
    fixed_lab = {}
    for f in fs:
        for l in f[3]:
            if not (isinstance(l, int) and l >= BOUND0):
                fixed_lab[l] = l
    if swap:
        a, b = swap
        if a not in fixed_lab and b not in fixed_lab:
            return False          # constant matrix (all ones) is psd, but not interesting
        fixed_lab[a] = b
        fixed_lab[b] = a
    m = dict(fixed_lab)
    used = [False] * len(fs)

    def ok_fixed(f):
        node, cj, e, ls = f
        img = tuple(m.get(l, None) for l in ls)
        if img == ls:
            # same labels: must be non-negative
            if node.pos:
                return True
            if node.real and _even(e):
                return True
            return False
        if len(ls) >= 2 and e == F1 and img == ls[:-2] + (ls[-1], ls[-2]) and node.psd:
            return True
        if node.kind == "pw" and len(ls) >= 2 and img == ls[:-2] + (ls[-1], ls[-2]) and e == F1 and psd(node.info):
            return True
        return False

    def assign(l, to, trail):
        if l in m:
            return m[l] == to
        if to in m:
            return m[to] == l
        m[l] = to
        trail.append(l)
        if to != l:
            m[to] = l
            trail.append(to)
        return True

    def undo(trail):
        for l in trail:
            m.pop(l, None)

    def go():
        try:
            i = used.index(False)
        except ValueError:
            return True
        # choose the most constrained unused factor
        best, bi = -1, None
        for k in range(len(fs)):
            if not used[k]:
                s = sum(1 for l in fs[k][3] if l in m)
                if s > best:
                    best, bi = s, k
        i = bi
        f = fs[i]
        node, cj, e, ls = f
        used[i] = True
        # option 1: fixed, same labels
        if node.pos or (node.real and _even(e)):
            trail = []
            if all(assign(l, l, trail) for l in ls):
                if go():
                    return True
            undo(trail)
        # option 2: fixed, swapped psd matrix
        if len(ls) >= 2 and e == F1 and (node.psd or (node.kind == "pw" and psd(node.info))):
            trail = []
            img = ls[:-2] + (ls[-1], ls[-2])
            if all(assign(l, t, trail) for l, t in zip(ls, img)):
                if go():
                    return True
            undo(trail)
        # option 3: paired with another factor that is its conjugate
        for k in range(len(fs)):
            if used[k] or k == i:
                continue
            g = fs[k]
            if g[0] is not node or g[2] != e:
                continue
            imgs = []
            if node.real or g[1] != cj:
                imgs.append(g[3])
            if node.herm and g[1] == cj:
                # conj(H)_{ab} = H_{ba}
                imgs.append(g[3][:-2] + (g[3][-1], g[3][-2]))
            if node.real and node.herm:
                imgs.append(g[3][:-2] + (g[3][-1], g[3][-2]))
            for img in imgs:
                trail = []
                used[k] = True
                if all(assign(l, t, trail) for l, t in zip(ls, img)):
                    if go():
                        return True
                undo(trail)
                used[k] = False
        used[i] = False
        return False
    return go()


# ------------------------------------------------------- substitution
class Subst:
    """replace leaves (by node) and scalar symbols.  leaves: node -> T (over the node's slots)
    syms: name -> Rat"""

    def __init__(self, leaves=None, syms=None, labels=None):
        self.leaves = leaves or {}
        self.syms = syms or {}
        self.labels = labels or {}       # free labels (of loop indices)
        self.memo = {}
        self.nmemo = {}

    def rat(self, r):
        return R.subst(r, self.syms) if self.syms else r

    def __call__(self, t):
        r = self.memo.get(t.id)
        if r is None:
            dims = [self.rat(d) for d in t.dims]
            raw = []
            for (ph, fs), c in t.terms:
                cur = [(self.rat(c), ph, [], {})]
                bm = {}
                bdims = {}
                for f in fs:
                    ls = []
                    for s, l in enumerate(f[3]):
                        if isinstance(l, int) and l >= BOUND0:
                            if l not in bm:
                                bm[l] = fresh()
                                bdims[bm[l]] = self.rat(f[0].dims[s])
                            ls.append(bm[l])
                        elif _is_c(l):
                            ls.append(("c", self.rat(l[1])))
                        else:
                            ls.append(self.labels.get(l, l))
                    nt = self.node(f[0])
                    if f[1]:
                        nt = conj_T(nt)
                    nt = tpow(nt, self.rat(f[2]))
                    nxt = []
                    for (c1, p1, f1, b1) in cur:
                        for (p2, f2), c2 in nt.terms:
                            f3, b3 = _rename(f2, ls)
                            nxt.append((R.mul(c1, c2), p1 + p2, f1 + f3, {**b1, **b3}))
                    cur = nxt
                raw.extend((c1, p1, f1, {**b1, **bdims}) for c1, p1, f1, b1 in cur)
            r = self.memo[t.id] = build(t.sizes, dims, raw)
        return r

    def node(self, node):
        r = self.nmemo.get(node.id)
        if r is None:
            r = self.nmemo[node.id] = self._node(node)
        return r

    def _node(self, node):
        if node in self.leaves:
            return flat(self.leaves[node])
        k = node.kind
        if k == "leaf":
            if self.syms:
                dims = [self.rat(d) for d in node.dims]
                if any(a is not b and a != b for a, b in zip(dims, node.dims)):
                    n2 = mknode("leaf", node.args, dims, real=node.real, herm=node.herm, psd=node.psd, pos=node.pos,
                                unitary=node.unitary, inv=node.inv, info=node.info, nb=node.nb)
                    return from_node(n2)
            return from_node(node)
        if k == "iota":
            return from_node(iota_node(self.rat(node.dims[0])))
        if k == "rev":
            return from_node(rev_node(self.rat(node.dims[0])))
        if k == "split":
            return from_node(split_node([self.rat(d) for d in node.dims[1:]]))
        if k in ("delta", "inj"):
            if self.syms:
                if k == "delta":
                    return eye(self.rat(node.dims[0]))
                return from_node(inj_node(*[self.rat(x) for x in node.info]))
            return from_node(node)
        if k == "rad":
            x = self.rat(node.info)
            return tpow(scalar(x), F1)
        if k == "logc":
            if self.syms:
                return fn("log", [scalar(self.rat(node.info))])
            return from_node(node)
        sub = [self(s) for s in node.sub]
        if all(a is b for a, b in zip(sub, node.sub)) and not self.syms:
            return from_node(node)
        if k == "pw":
            return flat(sub[0])
        if k == "fn":
            return flat(fn(node.args[0], [flat(s) for s in sub], node.info[1]))
        if k == "mpow":
            return mpow(sub[0], self.rat(node.info[1]))
        if k == "mfun":
            return mfun(sub[0], sub[1])
        if k == "det":
            return det_T(sub[0])
        if k == "chol":
            return cholesky_T(sub[0])
        if k == "cholinv":
            return mpow(cholesky_T(sub[0]), NEG1)
        if k == "eigval":
            return eigh_T(sub[0])[0]
        if k == "eigvec":
            return eigh_T(sub[0])[1]
        if k == "red":
            return flat(_red_rebuild(node, sub[0]))
        if k == "op":
            n2 = mknode("op", (node.info[0], tuple(a.id for a in sub), node.args[2]), [self.rat(d) for d in node.dims],
                        sub=tuple(sub), info=node.info, real=node.real, herm=node.herm, psd=node.psd, pos=node.pos,
                        unitary=node.unitary, inv=node.inv, nb=node.nb)
            return from_node(n2)
        raise Unsupported("substitution into %s" % k)


# ------------------------------------------------------- traversal & display
_INNER = {}


def inner_labels(t):
    """free labels of loop indices inside the nodes of a term"""
    r = _INNER.get(t.id)
    if r is None:
        r = set()
        for (ph, fs), c in t.terms:
            for f in fs:
                for x in f[0].sub:
                    r |= inner_labels(x)
                    for (_, gs), _c in x.terms:
                        for g in gs:
                            r.update(l for l in g[3] if isinstance(l, tuple) and l[0] == "o" and isinstance(l[1], str))
        r = _INNER[t.id] = frozenset(r)
    return r


def walk_nodes(t, seen=None):
    """all nodes reachable from t (deep)"""
    seen = seen if seen is not None else {}
    st = [t]
    done = set()
    while st:
        x = st.pop()
        if x.id in done:
            continue
        done.add(x.id)
        for (ph, fs), c in x.terms:
            for f in fs:
                if f[0].id not in seen:
                    seen[f[0].id] = f[0]
                    st.extend(f[0].sub)
    return list(seen.values())


def opaque_ops(t):
    return [n for n in walk_nodes(t) if n.kind == "op"]


_names = "ijklmnabcdefgh"


def show(t, depth=3):
    if not t.terms:
        return "0"
    out = []
    for (ph, fs), c in t.terms[:6]:
        s = "" if c == F1 and (fs or ph) else repr(c)
        if ph:
            s += " 1j"
        for f in fs:
            s += " " + show_factor(f, depth)
        out.append(s.strip())
    if len(t.terms) > 6:
        out.append("... (%d terms)" % len(t.terms))
    return " + ".join(out)


def show_factor(f, depth):
    node, cj, e, ls = f
    b = show_node(node, depth)
    if cj:
        b = "conj(%s)" % b
    if ls:
        b += "[" + ",".join(_ln(l) for l in ls) + "]"
    if e != F1:
        b += "^(%r)" % e
    return b


def _ln(l):
    if isinstance(l, int):
        if l >= BOUND0:
            return "*%d" % (l - BOUND0)
        return _names[l] if l < len(_names) else "x%d" % l
    if l[0] == "c":
        return repr(l[1])
    return "%s" % (l[1],)


def show_node(node, depth):
    if node.kind == "leaf":
        return node.args[0]
    if node.kind == "delta":
        return "I"
    if node.kind == "rad":
        return repr(node.info)
    if node.kind == "logc":
        return "log(%r)" % node.info
    if depth <= 0:
        return "%s#%d" % (node.kind, node.id)
    if node.kind == "pw":
        return "(%s)" % show(node.info, depth - 1)
    if node.kind == "fn":
        return "%s(%s)" % (node.args[0], "; ".join(show(a, depth - 1) for a in node.sub))
    if node.kind == "mpow":
        return "<%s>^%r" % (show(node.info[0], depth - 1), node.info[1])
    if node.kind == "mfun":
        return "spectral{%s}<%s>" % (show(node.info[1], depth - 1), show(node.info[0], depth - 1))
    if node.kind in ("det", "chol", "cholinv", "eigvec", "eigval"):
        return "%s<%s>" % (node.kind, show(node.sub[0], depth - 1))
    if node.kind == "red":
        return "%s<%s>" % (node.info[0], show(node.sub[0], depth - 1))
    if node.kind == "op":
        return "%s(%s)" % (node.info[0], "; ".join(show(a, depth - 1) for a in node.sub))
    if node.kind == "inj":
        return "block%r" % (tuple(node.info[1:]),)
    return "%s#%d" % (node.kind, node.id)
