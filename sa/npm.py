"""Models of the external world: Python builtins, numpy, scipy, sklearn, pymanopt, autograd.

Each model states what the external function computes on abstract values
(tensor normal forms) and which effects it has; nothing external is run.
"""
import math
from fractions import Fraction
import rat as R
import tf
from tf import F0, F1
from interp import (ListInst, like_seq, Arr, DT, Func, Bound, Native, Prop, StaticM, ClassM, ClassObj, Inst, Exc, Module, Opaque,
                    SymList, SymRange, SymEnum, SymZip, NewAxis, UNDEF, Unsupported, PyRaise, exc_class, is_exc_class,
                    _NeedBranch, _Star, GrowList, _CtxCall, same_value, LoopRec)

HOOKS = {}
_MODS = {}
OBJECT = Opaque("object")
INF = float("inf")


# ================================================================ dimensions
def dim(it, v):
    if isinstance(v, bool):
        return R.const(int(v))
    if isinstance(v, int):
        return R.const(v)
    if isinstance(v, Fraction) and v.denominator == 1:
        return R.const(v)
    if isinstance(v, Arr) and v.ndim == 0:
        c = tf._is_scalar_const(v.t)
        if c is not None:
            return c
        it.unsupported("dimension depends on data")
    if isinstance(v, R.Rat):
        return v
    it.unsupported("dimension %r" % (v,))


def num(r, dt="i"):
    """Rat -> python number or symbolic number"""
    c = r.const()
    if c is not None:
        return int(c) if (dt == "i" and c.denominator == 1) else c
    return Arr(tf.scalar(r), dt, py=True)


def is_num(v):
    return isinstance(v, (int, Fraction, float)) and not isinstance(v, bool)


def mk(it, t, dt="f", roots=None, like=None, tr=False):
    a = Arr(t, dt, roots)
    if it is not None:
        it.register(a)
    a.tr = tr
    return a


def to_arr(it, v, dt=None):
    if isinstance(v, Arr):
        return v
    if isinstance(v, bool):
        return Arr(tf.scalar(int(v)), "b")
    if isinstance(v, int):
        return Arr(tf.scalar(v), "i", py=True)
    if isinstance(v, Fraction):
        return Arr(tf.scalar(R.const(v)), "f", py=True)
    if isinstance(v, float):
        if v == v and abs(v) != INF:
            return Arr(tf.scalar(R.const(Fraction(repr(v)))), "f", py=True)
        nm = "inf" if v > 0 else "-inf" if v < 0 else "nan"
        return Arr(tf.from_node(tf.leaf("$" + nm, (), real=True)), "f", py=True)
    if isinstance(v, R.Rat):
        return Arr(tf.scalar(v), "i", py=True)
    if isinstance(v, (list, tuple)):
        return stack_list(it, v, 0)
    if isinstance(v, SymList):
        return lift_symlist(it, v)
    if isinstance(v, range):
        return stack_list(it, list(v), 0)
    if isinstance(v, SymRange):
        return mk(it, tf.from_node(tf.iota_node(v.n)), "i")
    if isinstance(v, Inst) and "_list" in v.attrs:
        return to_arr(it, v.attrs["_list"])
    it.unsupported("array from %s" % typename(v))


def lift_symlist(it, v):
    e = to_arr(it, v.elem)
    ax = [[("new", v.n)]] + [list(a) for a in e.t.axes()]
    t = relayout(e.t, ax)
    t = relabel(t, {v.label: 0})
    return mk(it, t, e.dt, e.roots, tr=e.tr)


def stack_list(it, vs, axis):
    """np.array / np.stack of a concrete list of values of one shape"""
    vs = list(vs)
    if not vs:
        return mk(it, tf.const_T((F0,), 0), "f")
    if any(isinstance(x, _Star) for x in vs):
        it.unsupported("array from a list with a symbolic part")
    es = [to_arr(it, x) for x in vs]
    dt = es[0].dt
    for e in es[1:]:
        dt = promote(dt, e.dt)
    r = max(e.ndim for e in es)
    if any(e.ndim != r for e in es):
        it.raise_("ValueError", "inhomogeneous shape")
    sh = es[0].shape
    if any(e.shape != sh for e in es):
        it.raise_("ValueError", "all input arrays must have the same shape")
    ts = align(it, [e.t for e in es])
    n = R.const(len(es))
    if axis < 0:
        axis += r + 1
    acc = None
    for k, t in enumerate(ts):
        ax = [list(a) for a in t.axes()]
        ax.insert(axis, [("new", n)])
        u = relayout(t, ax)
        pos = sum(t.sizes[:axis])
        d = tf.build((1,) * u.n, u.dims, [(F1, 0, [(tf.delta_node(n), False, F1, (pos, ("c", R.const(k))))], {})])
        u = tf.with_sizes(tf.mul_T(tf.flat(u), d), u.sizes) if n != F1 else u
        acc = u if acc is None else tf.add_T(acc, u)
    roots = frozenset()
    return mk(it, acc, dt, roots, tr=any(e.tr for e in es))


ORDER = "bifc"


def promote(a, b):
    if "?" in (a, b):
        return "c" if "c" in (a, b) else "?"
    return a if ORDER.index(a) >= ORDER.index(b) else b


# ================================================================ layout
def relayout(t, newaxes):
    """newaxes: list of lists of old free labels or ('new', dim); labels left out must be unit or unused"""
    m, dims, sizes = {}, [], []
    for ax in newaxes:
        ax2 = [x for x in ax if (x[1] if isinstance(x, tuple) else t.dims[x]) != F1] or ax[:1] or [("new", F1)]
        sizes.append(len(ax2))
        for x in ax2:
            if isinstance(x, tuple):
                dims.append(x[1])
            else:
                m[x] = len(dims)
                dims.append(t.dims[x])
    used = tf.used_labels(t)
    for l in used:
        if l not in m:
            raise Unsupported("axis lost in relayout")
    raw = [(c, ph, [(f[0], f[1], f[2], tuple(m[l] if isinstance(l, int) and l < tf.BOUND0 else l for l in f[3]))
                    for f in fs], tf._bounds(fs)) for (ph, fs), c in t.terms]
    if all(m.get(k) == k for k in range(t.n)) and len(dims) == t.n:
        return tf._intern(tuple(sizes), tuple(dims), dict(t.terms))
    return tf.build(sizes, dims, raw)


def relabel(t, mp):
    if not tf.inner_labels(t).isdisjoint(mp):
        deep = {k: v for k, v in mp.items() if not isinstance(v, int)}
        if not tf.inner_labels(t).isdisjoint(deep):
            return relabel(tf.Subst(labels=deep)(t), {k: v for k, v in mp.items() if k not in deep} if len(deep) < len(mp) else {})
    raw = []
    hit = False
    for (ph, fs), c in t.terms:
        f2 = []
        for f in fs:
            ls = tuple(mp.get(l, l) for l in f[3])
            hit = hit or ls != f[3]
            f2.append((f[0], f[1], f[2], ls))
        raw.append((c, ph, f2, tf._bounds(fs)))
    return tf.build(t.sizes, t.dims, raw) if hit else t


def sum_label(t, lab, n):
    b = tf.fresh()
    raw = []
    for (ph, fs), c in t.terms:
        bd = tf._bounds(fs)
        bd[b] = n
        raw.append((c, ph, [(f[0], f[1], f[2], tuple(b if l == lab else l for l in f[3])) for f in fs], bd))
    return tf.build(t.sizes, t.dims, raw)


def fit_like(a, b):
    return a if a.sizes == b.sizes else tf.with_sizes(relayout(a, [list(x) for x in a.axes()]), b.sizes)


def iota(n, lab):
    return tf.build((), (), [(F1, 0, [(tf.iota_node(n), False, F1, (lab,))], {})])


def prod_dims(ds):
    r = F1
    for d in ds:
        r = R.mul(r, d)
    return r


def restructure(it, t, structs):
    """give every axis of t the composite structure listed (a tuple of dims per axis)"""
    ok = all(tuple(t.dims[l] for l in ax) == tuple(s) for ax, s in zip(t.axes(), structs))
    if ok:
        return t
    used = tf.used_labels(t)
    parts_extra = []
    lab, out, dims, sizes, bound = {}, 0, [], [], {}
    for ax, s in zip(t.axes(), structs):
        d0 = tuple(t.dims[l] for l in ax)
        s = tuple(s)
        if d0 == s:
            for l in ax:
                lab[l] = len(dims)
                dims.append(t.dims[l])
            sizes.append(len(ax))
            continue
        if prod_dims(d0) != prod_dims(s):
            it.raise_("ValueError", "shape mismatch")
        if not any(l in used for l in ax):
            dims.extend(s)
            sizes.append(len(s))
            continue
        # align finest common refinement, label by label
        res = []
        i = j = 0
        L, S = list(ax), list(s)
        ldims = [t.dims[l] for l in L]
        newl = []
        while i < len(L) or j < len(S):
            if i < len(L) and j < len(S) and ldims[i] == S[j]:
                newl.append(("keep", L[i], S[j]))
                i += 1
                j += 1
                continue
            # one old label equals a product of new ones
            k, p = j, F1
            while k < len(S) and p != ldims[i]:
                p = R.mul(p, S[k])
                k += 1
            if p == ldims[i]:
                newl.append(("split", L[i], S[j:k]))
                i += 1
                j = k
                continue
            # or several old labels equal one new: join through the split map
            k, p = i, F1
            while k < len(L) and p != S[j]:
                p = R.mul(p, ldims[k])
                k += 1
            if p == S[j]:
                newl.append(("join", L[i:k], S[j]))
                i = k
                j += 1
                continue
            raise Unsupported("cannot align composite axes")
        base = len(dims)
        for kind, a, b in newl:
            if kind == "keep":
                lab[a] = len(dims)
                dims.append(b)
            elif kind == "split":
                m = tf.fresh()
                lab[a] = m
                bound[m] = t.dims[a]
                ls = [m]
                for d in b:
                    ls.append(len(dims))
                    dims.append(d)
                parts_extra.append((tf.from_node(tf.split_node(b)), ls))
            else:
                ls = [len(dims)]
                dims.append(b)
                for l in a:
                    m = tf.fresh()
                    lab[l] = m
                    bound[m] = t.dims[l]
                    ls.append(m)
                parts_extra.append((tf.from_node(tf.split_node([t.dims[l] for l in a])), ls))
        sizes.append(len(dims) - base)
    parts = [(tf.flat(t), [lab.get(l, 0) for l in range(t.n)])] + parts_extra
    # free labels that are unused map anywhere
    return tf.contract(parts, list(range(len(dims))), tuple(sizes), dims, bound)


def struct(t):
    return [tuple(t.dims[l] for l in ax) for ax in t.axes()]


def align(it, ts):
    """values of one shape -> same composite structure"""
    st = struct(ts[0])
    best = []
    for k in range(len(st)):
        cands = [struct(t)[k] for t in ts]
        used = [struct(t)[k] for t in ts if any(l in tf.used_labels(t) for l in t.axes()[k])]
        pool = used or cands
        best.append(max(pool, key=len))
    return [restructure(it, t, best) for t in ts]


def broadcast(it, ts):
    r = max(t.rank for t in ts)
    ts2 = []
    for t in ts:
        ax = [list(a) for a in t.axes()]
        ts2.append((t, [[("new", F1)]] * (r - t.rank) + ax))
    out_struct = []
    for k in range(r):
        cands = []
        for t, ax in ts2:
            s = tuple(x[1] if isinstance(x, tuple) else t.dims[x] for x in ax[k])
            u = any(not isinstance(x, tuple) and x in tf.used_labels(t) for x in ax[k])
            cands.append((prod_dims(s), s, u))
        big = [c for c in cands if c[0] != F1]
        if not big:
            out_struct.append(((F1,), F1))
            continue
        d0 = big[0][0]
        for c in big[1:]:
            if c[0] != d0:
                it.event("shape_error")
                it.raise_("ValueError", "operands could not be broadcast together (%r and %r)" % (d0, c[0]))
        pool = [c for c in big if c[2]] or big
        out_struct.append((max((c[1] for c in pool), key=len), d0))
    res = []
    for t, ax in ts2:
        new = []
        for k in range(r):
            s = tuple(x[1] if isinstance(x, tuple) else t.dims[x] for x in ax[k])
            if prod_dims(s) == F1 and out_struct[k][1] != F1:
                new.append([("new", d) for d in out_struct[k][0]])
            else:
                new.append(ax[k])
        u = relayout(t, new)
        res.append(restructure(it, u, [o[0] for o in out_struct]))
    return res


def masks_of(arrs):
    out = None
    for a in arrs:
        if isinstance(a, Arr) and a.masks:
            if out is None:
                out = dict(a.masks)
            else:
                for k, m in a.masks.items():
                    if k in out and out[k] is not m:
                        raise Unsupported("different masks")
                    out[k] = m
    return out


# ================================================================ arithmetic
def binop(it, op, a, b):
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return opaque_binop(it, op, a, b)
    for o, other, nm in ((a, b, _DUNDER.get(op)), (b, a, _RDUNDER.get(op))):
        if isinstance(o, Inst) and nm:
            m, c = o.cls.lookup(nm)
            if m is not None:
                return it.call(Bound(m, o), [other], {})
        if isinstance(o, ListInst) and nm:
            m, c = o.cls.lookup(nm)
            if isinstance(c, ClassObj):
                return it.call(Bound(m, o), [other], {})
    if isinstance(a, ListInst) or isinstance(b, ListInst):
        if op == "Add" and isinstance(a, list) and isinstance(b, list):
            return list(a) + list(b)
        if op == "Mult" and (isinstance(a, int) or isinstance(b, int)):
            a, b = (list(v) if isinstance(v, list) else v for v in (a, b))
        else:
            it.raise_("TypeError", "unsupported operand types for %s: %s and %s" % (op, typename(a), typename(b)))
    if op == "BitOr" and isinstance(a, dict):
        return {**a, **b}
    if op == "Add" and isinstance(a, str) and isinstance(b, str):
        return a + b
    if op == "Mod" and isinstance(a, str):
        return a
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and op == "Add" and type(a) is type(b):
        return a + b
    if op == "Mult" and isinstance(a, (list, tuple, str)) and isinstance(b, int):
        return a * b
    if op == "Mult" and isinstance(b, (list, tuple, str)) and isinstance(a, int):
        return b * a
    if op == "Mult" and isinstance(a, (list, tuple)) and isinstance(b, Arr) and b.py and len(a) == 1:
        return SymList(dim(it, b), ("o", "rep"), a[0])
    if isinstance(a, SymList) and isinstance(b, SymList) and op == "Add":
        it.unsupported("concatenation of symbolic lists")
    if a is None or b is None or isinstance(a, (str, dict)) or isinstance(b, (str, dict)):
        it.raise_("TypeError", "unsupported operand types for %s: %s and %s" % (op, typename(a), typename(b)))
    if isinstance(a, bool) and not isinstance(b, Arr):
        a = int(a)
    if isinstance(b, bool) and not isinstance(a, Arr):
        b = int(b)
    if is_num(a) and is_num(b):
        return num_op(it, op, a, b)
    if op == "MatMult":
        return matmul(it, a, b)
    return ew(it, op, a, b)


_DUNDER = {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__", "Div": "__truediv__", "MatMult": "__matmul__",
           "Pow": "__pow__"}
_RDUNDER = {"Add": "__radd__", "Sub": "__rsub__", "Mult": "__rmul__", "Div": "__rtruediv__", "MatMult": "__rmatmul__",
            "Pow": "__rpow__"}


def num_op(it, op, a, b):
    try:
        if isinstance(a, float) or isinstance(b, float):
            x, y = float(a), float(b)
            return {"Add": lambda: x + y, "Sub": lambda: x - y, "Mult": lambda: x * y, "Div": lambda: x / y,
                    "Pow": lambda: x ** y, "FloorDiv": lambda: x // y, "Mod": lambda: x % y}[op]()
        if op == "Add":
            return a + b
        if op == "Sub":
            return a - b
        if op == "Mult":
            return a * b
        if op == "Div":
            return Fraction(a) / Fraction(b)
        if op == "FloorDiv":
            return int(a // b) if isinstance(a, int) and isinstance(b, int) else Fraction(a // b)
        if op == "Mod":
            return a % b
        if op == "Pow":
            if isinstance(b, int) or b.denominator == 1:
                b = int(b)
                if b < 0:
                    return Fraction(a) ** b
                return a ** b
            return Arr(tf.tpow(tf.scalar(R.const(a)), R.const(b)), "f", py=True)
        if op in ("BitAnd", "BitOr", "BitXor", "LShift", "RShift"):
            return {"BitAnd": a & b, "BitOr": a | b, "BitXor": a ^ b}.get(op) if op[:3] == "Bit" else \
                (a << b if op == "LShift" else a >> b)
    except ZeroDivisionError:
        it.raise_("ZeroDivisionError", "division by zero")
    it.unsupported("operator %s on numbers" % op)


def track(it, arrs):
    return any(a.tr for a in arrs if isinstance(a, Arr))


def mod_t(ta, tb):
    """ta % tb; 0 when tb is a number that divides every coefficient of an integer polynomial"""
    k = tf._is_scalar_const(tb)
    x = tf._is_scalar_const(ta)
    if k is not None and x is not None and k.const() is not None and k.const() > 0:
        q = R.div(x, k)
        if R.is_integral(q, tf.INT_SYMBOLS):
            return tf.scalar(R.ZERO)
        qr = R.divmod_int(q, tf.INT_SYMBOLS, tf.POS_SYMBOLS)
        if qr is not None:
            return tf.scalar(R.mul(R.const(qr[1]), k))
    return tf.fn("mod", [ta, tb])


def floor_t(x):
    """floor of a scalar when it is an integer combination of integers plus a constant"""
    c = tf._is_scalar_const(x)
    if c is not None:
        qr = R.divmod_int(c, tf.INT_SYMBOLS, tf.POS_SYMBOLS)
        if qr is not None:
            return tf.scalar(qr[0])
    return tf.fn("floor", [x])


def trunc_t(x):
    """int() of a scalar; floor when it is not negative"""
    c = tf._is_scalar_const(x)
    if c is not None and R.nonneg(c, tf.is_pos_sym):
        y = floor_t(x)
        if not tf.opaque_ops(y):
            return y
    return tf.fn("trunc", [x])


def ew(it, op, a, b):
    a, b = to_arr(it, a), to_arr(it, b)
    msk = masks_of((a, b))
    if op == "Pow":
        return pow_(it, a, b)
    ta, tb = broadcast(it, [a.t, b.t])
    dt = promote(a.dt, b.dt)
    if op == "Add":
        t = tf.add_T(ta, tb)
    elif op == "Sub":
        t = tf.sub_T(ta, tb)
    elif op == "Mult":
        t = tf.mul_T(ta, tb)
    elif op == "Div":
        if tb.is_zero():
            if a.py and b.py:
                it.raise_("ZeroDivisionError", "division by zero")
            it.event("div0")
            t = tf.mul_T(ta, lift(tf.from_node(tf.leaf("$inf", (), real=True)), ta))
        else:
            t = tf.mul_T(ta, tf.tpow(tb, R.const(-1)))
        dt = promote(dt, "f")
    elif op in ("BitAnd", "BitOr") and dt == "b":
        return logical(it, "and" if op == "BitAnd" else "or", a, b)
    elif op == "BitXor" and dt == "b":
        t = tf.fn("ne0", [tf.sub_T(ta, tb)])
    elif op == "FloorDiv":
        x = tf.mul_T(ta, tf.tpow(tb, R.const(-1)))
        t = x if (dt == "i" and exact_int(x)) else floor_t(x)
    elif op == "Mod":
        t = mod_t(ta, tb)
    elif op == "Pow":
        pass
    else:
        it.unsupported("operator %s" % op)
    if op in ("Add", "Sub", "Mult") and dt == "b":
        dt = "b" if op != "Sub" else "i"
    r = Arr(t, dt, None, a.py and b.py)
    if not r.py:
        it.register(r)
    r.tr = a.tr or b.tr
    r.masks = msk
    return r


def exact_int(x):
    c = tf._is_scalar_const(x)
    return c is not None and all(v.denominator == 1 for v in c.n.values()) and c.d == {(): 1}


def lift(s, t):
    return tf._intern(t.sizes, t.dims, dict(s.terms))


def pow_(it, a, b):
    e = tf._is_scalar_const(b.t)
    dt = promote(a.dt, "f" if b.dt == "f" else a.dt)
    msk = masks_of((a, b))
    if e is not None and b.ndim == 0:
        if e.const() is not None and e.const() < 0 and a.dt == "i":
            if not a.py:
                it.event("int_negative_power")
            dt = "f"
        if a.t.is_zero() and e.const() is not None and e.const() < 0:
            it.event("div0")
            t = lift(tf.from_node(tf.leaf("$inf", (), real=True)), a.t)
        else:
            t = tf.tpow(a.t, e)
        r = Arr(t, dt, None, a.py and b.py)
    elif b.ndim == 0 and a.ndim == 0 or True:
        ta, tb = broadcast(it, [a.t, b.t])
        c = tf._is_scalar_const(ta)
        if c is not None and R.positive(c, tf.is_pos_sym):
            t = tf.fn("exp", [tf.mul_T(tb, tf.fn("log", [ta]))])
        else:
            t = tf.fn("exp", [tf.mul_T(tb, tf.fn("log", [ta]))]) if tf.nonneg(ta) else tf.fn("power", [ta, tb])
        r = Arr(t, promote(dt, b.dt), None, a.py and b.py)
    if not r.py:
        it.register(r)
    r.tr = a.tr or b.tr
    r.masks = msk
    return r


def unary(it, op, v):
    if isinstance(v, Opaque):
        return opaque_binop(it, op, v, None)
    if isinstance(v, bool):
        v = int(v) if op != "Invert" else v
    if is_num(v):
        return {"USub": lambda: -v, "UAdd": lambda: v, "Invert": lambda: ~v}[op]()
    if isinstance(v, (Inst, ListInst)):
        m, c = v.cls.lookup({"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[op])
        if m is not None:
            return it.call(Bound(m, v), [], {})
    if not isinstance(v, Arr):
        it.raise_("TypeError", "bad operand for unary %s: %s" % (op, typename(v)))
    if op == "USub":
        r = Arr(tf.scale_T(v.t, R.const(-1)), v.dt, None, v.py)
    elif op == "UAdd":
        if v.py:
            return v
        r = Arr(v.t, v.dt)
    elif op == "Invert":
        if v.dt == "b":
            return logical_not(it, v)
        it.unsupported("~ on non-boolean array")
    if not r.py:
        it.register(r)
    r.tr = v.tr
    r.masks = v.masks
    return r


def cum(it, fnm, args, dt=None, extra=()):
    """elementwise function node"""
    arrs = [to_arr(it, a) for a in args]
    ts = broadcast(it, [a.t for a in arrs])
    d = dt
    if d is None:
        d = arrs[0].dt
        for a in arrs[1:]:
            d = promote(d, a.dt)
        if d in "ib":
            d = "f"
    r = Arr(tf.fn(fnm, ts, extra), d, None, all(a.py for a in arrs))
    if not r.py:
        it.register(r)
    r.tr = track(it, arrs)
    r.masks = masks_of(arrs)
    return r


# ---------------------------------------------------------------- comparisons
def norm_sign(t):
    """strip a positive common factor; T whose sign equals that of t"""
    if not t.terms:
        return t
    # multiply out negative powers and drop positive factors common to all the terms
    if t.n == 0 or True:
        try:
            common, q = tf._common(t, False)
        except Exception:
            return t
        if common:
            t = q
        c = t.terms[0][1]
        if R.negative(c, tf.is_pos_sym):
            c = R.neg(c)
        if R.positive(c, tf.is_pos_sym) and c != F1:
            t = tf.scale_T(t, R.inv(c))
    return t


def sign_of(it, t):
    """+1 (>0), 0, -1, or None; also '>=0' as 2 and '<=0' as -2"""
    if t.is_zero():
        return 0
    c = tf._is_scalar_const(t)
    if c is not None:
        k = c.const()
        if k is not None:
            return 1 if k > 0 else -1 if k < 0 else 0
        if R.positive(c, tf.is_pos_sym):
            return 1
        if R.negative(c, tf.is_pos_sym):
            return -1
        x = R.subst(c, tf.int_shift(c))
        if tf.positive_int(c):
            return 1
        if tf.positive_int(R.neg(c)):
            return -1
        if R.nonneg(x, tf.is_pos_sym):
            return 2
        if R.nonneg(R.neg(x), tf.is_pos_sym):
            return -2
    elif t.n == 0:
        if strictly_pos(t):
            return 1
        if strictly_pos(tf.scale_T(t, R.const(-1))):
            return -1
        if tf.nonneg(t):
            return 2
        if tf.nonneg(tf.scale_T(t, R.const(-1))):
            return -2
    return None


def strictly_pos(t):
    """a sum of non-negative terms, one of them a strictly positive number/leaf"""
    if not tf.nonneg(t):
        return False
    for (ph, fs), c in t.terms:
        if R.positive(c, tf.is_pos_sym) and all(
                f[0].kind in ("rad", "det") or (f[0].kind == "leaf" and f[0].pos and not f[0].dims and
                                                 not f[0].args[0].startswith("phi")) for f in fs):
            return True
    return False


def int_valued(t):
    """all the values of the scalar T are integers (sums of integer symbols / int leaves)"""
    for (ph, fs), c in t.terms:
        if c.d != {(): 1} or any(v.denominator != 1 for v in c.n.values()):
            return False
        if any(s not in tf.INT_SYMBOLS and not s.startswith("kappa") for s in R.symbols(c)):
            return False
        for f in fs:
            if f[0].kind == "iota" and f[2] == F1:
                continue
            if f[0].kind == "leaf" and f[0].info == "int" and f[2] == F1:
                continue
            return False
    return True


def bounds_from_facts(it, t):
    """(lower, upper) constants for the scalar t implied by the conditions taken on this path"""
    lo = hi = None

    def upd(c, islo):
        nonlocal lo, hi
        if islo:
            lo = c if lo is None or c > lo else lo
        else:
            hi = c if hi is None or c < hi else hi
    facts = []
    for (k, tid), val in it.path.memo.items():
        if k == "gt0":
            f = _byid(tid)
            facts.append((f, val))
        elif k == "eq0" and val:
            f = _byid(tid)
            facts.append((f, "eq"))
    for f, val in facts + it.path.assume.get("facts", []):
        for sgn in (1, -1):
            g = f if sgn == 1 else tf.scale_T(f, R.const(-1))
            d = tf.sub_T(t, g) if t.sizes == g.sizes else None
            if d is None:
                continue
            s = sign_const(it, d)
            if s is None:
                continue
            dl, dh = s
            isint = int_valued(f)
            if val == "eq":
                if dl is not None:
                    upd(dl, True)
                if dh is not None:
                    upd(dh, False)
            elif val:
                # f > 0
                if sgn == 1 and dl is not None:
                    upd(dl + (1 if isint else Fraction(1, 10 ** 9)), True)
                if sgn == -1 and dh is not None:
                    upd(dh - (1 if isint else Fraction(1, 10 ** 9)), False)
            else:
                # f <= 0
                if sgn == 1 and dh is not None:
                    upd(dh, False)
                if sgn == -1 and dl is not None:
                    upd(dl, True)
    return lo, hi


def sign_const(it, d):
    """(lower, upper) constant bounds of d (None where unknown)"""
    c = tf._is_scalar_const(d)
    if c is None:
        s = sign_of(it, d)
        if s in (1, 2):
            return (Fraction(0), None)
        if s in (-1, -2):
            return (None, Fraction(0))
        return None
    k = c.const()
    if k is not None:
        return (k, k)
    s = sign_of(it, d)
    if s in (1, 2):
        return (Fraction(1) if s == 1 and int_valued(d) else Fraction(0), None)
    if s in (-1, -2):
        return (None, Fraction(-1) if s == -1 and int_valued(d) else Fraction(0))
    return None


_tid = {}


def _byid(i):
    return _tid[i]


def decide_atom(it, kind, t):
    """truth of gt0(t) / eq0(t) for a scalar t if it follows from signs and path facts"""
    s = sign_of(it, t)
    if kind == "gt0":
        if s == 1:
            return True
        if s in (0, -1, -2):
            return False
    else:
        if s == 0:
            return True
        if s in (1, -1):
            return False
    m = it.path.memo.get((kind, t.id))
    if m is not None:
        return m
    lo, hi = bounds_from_facts(it, t)
    if s == 2:
        lo = max(lo, 0) if lo is not None else Fraction(0)
    if s == -2:
        hi = min(hi, 0) if hi is not None else Fraction(0)
    if kind == "gt0":
        if lo is not None and lo > 0:
            return True
        if hi is not None and hi <= 0:
            return False
    else:
        if lo is not None and hi is not None and lo == hi == 0:
            return True
        if lo is not None and lo > 0 or hi is not None and hi < 0:
            return False
        # x < 0 strictly known through gt0(-x)
        n = tf.scale_T(t, R.const(-1))
        for u in (t, n):
            u = norm_sign(u)
            if it.path.memo.get(("gt0", u.id)) is True:
                return False
        if it.path.memo.get(("gt0", norm_sign(t).id)) is False and it.path.memo.get(("gt0", norm_sign(n).id)) is False:
            return True
    if kind == "gt0":
        n = norm_sign(tf.scale_T(t, R.const(-1)))
        if it.path.memo.get(("gt0", n.id)) is True:
            return False
        e = norm_sign(t)
        e2 = canon_sign(e)
        if it.path.memo.get(("eq0", e2.id)) is True:
            return False
        if s == 2 and it.path.memo.get(("eq0", e2.id)) is False:
            return True
        if it.path.memo.get(("eq0", e2.id)) is False and it.path.memo.get(("gt0", n.id)) is False:
            return True
    return None


def canon_sign(t):
    n = tf.scale_T(t, R.const(-1))
    if not t.terms:
        return t
    return t if _pos_lead(t) else n


def _pos_lead(t):
    c = t.terms[0][1]
    return c.n[max(c.n)] > 0


def atom(it, kind, t):
    """boolean Arr for gt0 / le0 / eq0 / ne0 of a value"""
    t = norm_sign(t)
    if kind in ("eq0", "ne0"):
        t = canon_sign(t)
    if t.n == 0:
        d = decide_atom(it, {"le0": "gt0", "ne0": "eq0"}.get(kind, kind), t)
        if d is not None:
            return d if kind in ("gt0", "eq0") else not d
    else:
        c = tf._is_scalar_const(t)
        if c is not None:
            s = sign_of(it, tf.scalar(c))
            if s in (0, 1, -1):
                v = {"gt0": s == 1, "le0": s != 1, "eq0": s == 0, "ne0": s != 0}[kind]
                return Arr(tf._intern(t.sizes, t.dims, {(0, ()): F1} if v else {}), "b")
    _tid[t.id] = t
    r = Arr(tf.fn(kind, [t]), "b")
    r.meta = (kind, t)
    it.register(r)
    return r


def compare(it, op, a, b):
    if op in ("Is", "IsNot"):
        r = is_same(it, a, b)
        return r if op == "Is" else not r
    if op in ("In", "NotIn"):
        r = contains(it, a, b)
        return r if op == "In" else (not r if isinstance(r, bool) else logical_not(it, r))
    if isinstance(a, Inst) and op in ("Eq", "NotEq"):
        m, c = a.cls.lookup("__eq__")
        if m is not None:
            r = it.call(Bound(m, a), [b], {})
            return r if op == "Eq" else not it.truth(r)
    if isinstance(a, (SymList,)) or isinstance(b, SymList):
        it.unsupported("comparison of symbolic lists")
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        if op in ("Eq", "NotEq"):
            if a is b:
                return op == "Eq"
            if type_token(a) is not None and type_token(b) is not None:
                return (type_token(a) == type_token(b)) == (op == "Eq")
            if isinstance(a, DT) or isinstance(b, DT):
                x, y = as_dt(a), as_dt(b)
                if x is not None and y is not None:
                    return (x == y) == (op == "Eq")
        return Opaque("(%s %s %s)" % (_nm(a), op, _nm(b)))
    if isinstance(a, DT) or isinstance(b, DT):
        x, y = as_dt(a), as_dt(b)
        if x is None or y is None:
            return op == "NotEq"
        if "?" in (x.kind, y.kind) and x.kind != y.kind:
            it.unsupported("comparison of an unknown dtype")
        return (x == y) == (op == "Eq")
    if isinstance(a, bool):
        a = int(a)
    if isinstance(b, bool):
        b = int(b)
    if is_num(a) and is_num(b) or isinstance(a, str) and isinstance(b, str):
        return {"Eq": a == b, "NotEq": a != b, "Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and op in ("Eq", "NotEq"):
        if type(a) is not type(b) or len(a) != len(b):
            return op == "NotEq"
        res = True
        for x, y in zip(a, b):
            if not it.truth(compare(it, "Eq", x, y)):
                res = False
                break
        return res == (op == "Eq")
    if isinstance(a, Arr) or isinstance(b, Arr):
        if a is None or b is None or isinstance(a, (str, dict, ClassObj, Func)) or isinstance(b, (str, dict, ClassObj, Func)):
            if op == "Eq":
                return False
            if op == "NotEq":
                return True
            it.raise_("TypeError", "unorderable types")
        # infinities
        for x, y, sw in ((a, b, False), (b, a, True)):
            if isinstance(x, float) and abs(x) == INF and isinstance(y, Arr):
                o = op if not sw else {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(op, op)
                pos = x > 0
                if y.ndim == 0:
                    return {"Eq": False, "NotEq": True, "Gt": pos, "GtE": pos, "Lt": not pos, "LtE": not pos}[o]
        A, B = to_arr(it, a), to_arr(it, b)
        ta, tb = broadcast(it, [A.t, B.t])
        if op in ("Lt", "LtE", "Gt", "GtE") and (A.dt == "c" or B.dt == "c"):
            # numpy orders complex numbers lexicographically by their real parts
            it.event("complex_order")
            ta, tb = tf.real_part(ta), tf.real_part(tb)
        d = tf.sub_T(ta, tb)
        if op == "Gt":
            r = atom(it, "gt0", d)
        elif op == "LtE":
            r = atom(it, "le0", d)
        elif op == "Lt":
            r = atom(it, "gt0", tf.sub_T(tb, ta))
        elif op == "GtE":
            r = atom(it, "le0", tf.sub_T(tb, ta))
        elif op == "Eq":
            r = atom(it, "eq0", d)
        else:
            r = atom(it, "ne0", d)
        if isinstance(r, Arr):
            r.tr = A.tr or B.tr
            r.masks = masks_of((A, B))
        return r
    if op == "Eq":
        return a is b or (type_token(a) is not None and type_token(a) == type_token(b))
    if op == "NotEq":
        return not (a is b or (type_token(a) is not None and type_token(a) == type_token(b)))
    if a is None or b is None:
        it.raise_("TypeError", "unorderable types")
    it.unsupported("comparison %s of %s and %s" % (op, typename(a), typename(b)))


def is_same(it, a, b):
    if a is None or b is None:
        if a is None and b is None:
            return True
        o = b if a is None else a
        if isinstance(o, Opaque) and "maybe_none" in o.attrs:
            return it.branch_opaque(o)
        return False
    if isinstance(a, bool) or isinstance(b, bool):
        if isinstance(a, Arr) or isinstance(b, Arr):
            return False
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return it.branch_opaque(a if isinstance(a, Opaque) else b) == (b if isinstance(a, Opaque) else a)
        return a is b
    if type_token(a) is not None and type_token(b) is not None:
        return type_token(a) == type_token(b)
    if isinstance(a, (int, str, Fraction)) and isinstance(b, (int, str, Fraction)):
        return a == b
    return a is b


def contains(it, x, c):
    if isinstance(c, dict):
        return hashable(it, x) in c
    if isinstance(c, str):
        return isinstance(x, str) and x in c
    if isinstance(c, (list, tuple, set)):
        for y in c:
            r = compare(it, "Eq", x, y) if not (x is y) else True
            if isinstance(r, Arr) and r.ndim:
                it.unsupported("membership of an array")
            if it.truth(r):
                return True
        return False
    if isinstance(c, range):
        if isinstance(x, int):
            return x in c
    if isinstance(c, Inst):
        m, k = c.cls.lookup("__contains__")
        if m is not None:
            return it.truth(it.call(Bound(m, c), [x], {}))
    if isinstance(c, Opaque):
        return Opaque("(%s in %s)" % (_nm(x), c.name))
    it.unsupported("membership test in %s" % typename(c))


def _nm(v):
    if isinstance(v, Opaque):
        return v.name
    if isinstance(v, Arr):
        return "arr%d" % v.t.id
    return repr(v)


def truth_arr(it, v):
    if v.ndim and not all(d == F1 for d in v.t.dims):
        it.raise_("ValueError", "The truth value of an array with more than one element is ambiguous")
    t = v.t
    if v.dt != "b" or v.meta is None or not isinstance(v.meta, tuple):
        c = tf._is_scalar_const(t)
        if c is not None and c.const() is not None:
            return c.const() != 0
        if v.dt == "b":
            if len(t.terms) == 1 and len(t.terms[0][0][1]) == 1 and t.terms[0][1] == F1 and t.terms[0][0][0] == 0:
                f = t.terms[0][0][1][0]
                if f[0].kind == "fn" and f[0].args[0] in tf.INDICATOR and f[2] == F1:
                    inner = relabel_free(f, t)
                    k = f[0].args[0]
                    _tid[inner.id] = inner
                    d = decide_atom(it, {"le0": "gt0", "ne0": "eq0"}.get(k, k), inner)
                    if d is None:
                        d = it.branch({"le0": "gt0", "ne0": "eq0"}.get(k, k), inner)
                    return d if k in ("gt0", "eq0") else not d
            _tid[t.id] = t
            return it.branch("true", tf.with_sizes(t, t.sizes))
        s = tf.canon_sign(t) if hasattr(tf, "canon_sign") else canon_sign(norm_sign(t))
        _tid[s.id] = s
        d = decide_atom(it, "eq0", s)
        if d is None:
            d = it.branch("eq0", s)
        return not d
    k, x = v.meta
    if x.n:
        x = relayout(x, [])
        _tid[x.id] = x
    kk = {"le0": "gt0", "ne0": "eq0"}.get(k, k)
    d = decide_atom(it, kk, x)
    if d is None:
        _tid[x.id] = x
        d = it.branch(kk, x)
    return d if k in ("gt0", "eq0") else not d


def relabel_free(f, t):
    return tf.contract([(tf.flat(f[0].sub[0]), list(f[3]))], list(range(t.n)), t.sizes, t.dims, {}) if t.n else \
        tf.contract([(tf.flat(f[0].sub[0]), list(f[3]))], [], (), (), {})


def decide(it, v):
    """truth of a scalar boolean if already decided, else None"""
    if isinstance(v, bool):
        return v
    if isinstance(v, Arr) and isinstance(v.meta, tuple):
        k, x = v.meta
        d = decide_atom(it, {"le0": "gt0", "ne0": "eq0"}.get(k, k), x)
        if d is not None:
            return d if k in ("gt0", "eq0") else not d
    return None


_NEGK = {"gt0": "le0", "le0": "gt0", "eq0": "ne0", "ne0": "eq0"}


def logical_not(it, v):
    if isinstance(v, bool):
        return not v
    v = to_arr(it, v)
    if isinstance(v.meta, tuple) and v.meta[0] in _NEGK:
        return atom(it, _NEGK[v.meta[0]], v.meta[1])
    t = v.t
    if v.dt != "b":
        return atom(it, "eq0", t)
    if len(t.terms) == 1 and len(t.terms[0][0][1]) == 1 and t.terms[0][1] == F1:
        f = t.terms[0][0][1][0]
        if f[0].kind == "fn" and f[0].args[0] in _NEGK:
            inner = tf.contract([(tf.flat(f[0].sub[0]), list(f[3]))], list(range(t.n)), t.sizes, t.dims, {})
            r = mk(it, tf.fn(_NEGK[f[0].args[0]], [inner]), "b")
            r.masks = v.masks
            return r
    one = tf._intern(t.sizes, t.dims, {(0, ()): F1})
    r = mk(it, tf.sub_T(one, t), "b")
    r.masks = v.masks
    return r


def logical(it, op, a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return (a and b) if op == "and" else (a or b)
    if isinstance(a, bool):
        a, b = b, a
    if isinstance(b, bool):
        if op == "and":
            return a if b else False
        return True if b else a
    if not isinstance(a, Arr) or not isinstance(b, Arr):
        return (it.truth(a) and it.truth(b)) if op == "and" else (it.truth(a) or it.truth(b))
    ta, tb = broadcast(it, [a.t, b.t])
    t = tf.mul_T(ta, tb)
    if op == "or":
        t = tf.sub_T(tf.add_T(ta, tb), t)
    return mk(it, t, "b")


def indicator(it, c):
    """0/1 valued T of a boolean"""
    if isinstance(c, bool):
        return tf.scalar(int(c))
    c = to_arr(it, c)
    if c.dt != "b":
        r = atom(it, "ne0", c.t)
        return tf.scalar(int(r)) if isinstance(r, bool) else r.t
    return c.t


def select(it, c, a, b):
    """a where c else b (elementwise)"""
    if a is b or same_value(a, b):
        return a
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        return like_seq(a, (select(it, c, x, y) for x, y in zip(a, b)))
    if isinstance(a, (bool, Arr)) and isinstance(b, (bool, Arr)) or is_num(a) or is_num(b):
        return where(it, c, a, b)
    it.unsupported("values of different kinds under a per-element condition")


def where(it, c, a, b):
    c = to_arr(it, c)
    A, B = to_arr(it, a), to_arr(it, b)
    ci = indicator(it, c)
    ni = logical_not(it, c if c.dt == "b" else Arr(ci, "b"))
    ni = tf.scalar(int(ni)) if isinstance(ni, bool) else ni.t
    tc, tn, ta, tb = broadcast(it, [ci, ni, A.t, B.t])
    m = min_max(tc, ta, tb)
    t = m if m is not None else tf.add_T(tf.mul_T(tc, ta), tf.mul_T(tn, tb))
    r = Arr(t, promote(A.dt, B.dt), None, A.py and B.py and c.ndim == 0)
    it.register(r)
    r.tr = A.tr or B.tr or c.tr
    r.masks = masks_of((c, A, B))
    return r


def min_max(tc, ta, tb):
    """where(u > 0, a, b) that is a minimum or a maximum of a and b"""
    if len(tc.terms) != 1 or len(tc.terms[0][0][1]) != 1 or tc.terms[0][1] != F1:
        return None
    f = tc.terms[0][0][1][0]
    if f[0].kind != "fn" or f[0].args[0] not in ("gt0", "le0"):
        return None
    u = tf.contract([(tf.flat(f[0].sub[0]), list(f[3]))], list(range(tc.n)), tc.sizes, tc.dims, {})
    d = norm_sign(tf.sub_T(ta, tb))
    e = norm_sign(tf.sub_T(tb, ta))
    if f[0].args[0] == "le0":
        d, e = e, d
    if d is u:
        return tf.fn("maximum", [ta, tb])
    if e is u:
        return tf.fn("minimum", [ta, tb])
    return None


# ================================================================ linear algebra
def matmul(it, a, b):
    a, b = to_arr(it, a), to_arr(it, b)
    if a.ndim == 0 or b.ndim == 0:
        it.raise_("ValueError", "matmul: Input operand does not have enough dimensions")
    ta, tb = a.t, b.t
    va = a.ndim == 1
    vb = b.ndim == 1
    if va:
        ta = relayout(ta, [[("new", F1)]] + [list(x) for x in ta.axes()])
    if vb:
        tb = relayout(tb, [list(x) for x in tb.axes()] + [[("new", F1)]])
    # contracted axes
    da, db = prod_dims(struct(ta)[-1]), prod_dims(struct(tb)[-2])
    if da != db:
        it.event("shape_error")
        it.raise_("ValueError", "matmul: mismatch in core dimension (%r and %r)" % (da, db))
    sa, sb = struct(ta)[-1], struct(tb)[-2]
    s = max(sa, sb, key=len) if sa != sb else sa
    ta = restructure(it, ta, struct(ta)[:-1] + [s])
    tb = restructure(it, tb, struct(tb)[:-2] + [s] + struct(tb)[-1:])
    # batch broadcasting
    r = max(ta.rank, tb.rank)
    ra, rb = ta.rank, tb.rank
    batch = []
    for k in range(r - 2):
        ia, ib = k - (r - ra), k - (r - rb)
        xs = []
        if ia >= 0:
            xs.append((ta, ta.axes()[ia]))
        if ib >= 0:
            xs.append((tb, tb.axes()[ib]))
        big = [(t, ax) for t, ax in xs if prod_dims([t.dims[l] for l in ax]) != F1]
        if len(big) == 2 and [big[0][0].dims[l] for l in big[0][1]] != [big[1][0].dims[l] for l in big[1][1]]:
            it.raise_("ValueError", "matmul: batch dimensions differ")
        batch.append([t.dims[l] for t, ax in big[:1] for l in ax] or [F1])
    labs = []
    dims, sizes = [], []
    for bd in batch:
        labs.append([len(dims) + i for i in range(len(bd))])
        dims.extend(bd)
        sizes.append(len(bd))
    cl = [tf.fresh() for _ in s]
    bound = dict(zip(cl, s))

    def lab(t, first):
        out = []
        k0 = r - t.rank
        for k, ax in enumerate(t.axes()[:-2]):
            if prod_dims([t.dims[l] for l in ax]) == F1:
                out.extend([0] * len(ax))
            else:
                out.extend(labs[k + k0])
        return out
    la, lb = lab(ta, True), lab(tb, False)
    ax = ta.axes()[-2]
    rows = [len(dims) + i for i in range(len(ax))]
    dims.extend(ta.dims[l] for l in ax)
    sizes.append(len(ax))
    ax = tb.axes()[-1]
    cols = [len(dims) + i for i in range(len(ax))]
    dims.extend(tb.dims[l] for l in ax)
    sizes.append(len(ax))
    parts = [(tf.flat(ta), la + rows + cl), (tf.flat(tb), lb + cl + cols)]
    mm = None
    ma, mb = (a.masks or {}), (b.masks or {})
    out_masks = {}
    if a.masks or b.masks:
        axa = a.ndim - 1
        axb = max(b.ndim - 2, 0)
        m1, m2 = ma.get(axa), mb.get(axb)
        if (m1 is not None or m2 is not None):
            m = m1 if m1 is not None else m2
            if m1 is not None and m2 is not None and m1 is not m2:
                it.unsupported("product over different masks")
            parts.append((m, cl))
        if a.ndim == 2 and 0 in ma:
            out_masks[0] = ma[0]
        if b.ndim == 2 and 1 in mb:
            out_masks[1 if not va else 0] = mb[1]
    t = tf.contract(parts, list(range(len(dims))), tuple(sizes), dims, bound)
    axs = [list(x) for x in t.axes()]
    if va:
        del axs[-2]
    if vb:
        del axs[-1]
    if va or vb:
        t = relayout(t, axs)
    r_ = mk(it, t, promote(a.dt, b.dt), tr=a.tr or b.tr)
    r_.masks = out_masks or None
    return r_


def need_square(it, t, what):
    if t.rank < 2 or prod_dims(struct(t)[-1]) != prod_dims(struct(t)[-2]):
        it.raise_("LinAlgError" if False else "ValueError", "%s: last 2 dimensions must be square" % what)
    s1, s2 = struct(t)[-1], struct(t)[-2]
    if s1 != s2:
        s = max(s1, s2, key=len)
        t = restructure(it, t, struct(t)[:-2] + [s, s])
    return t


def kron_parts(t):
    """a matrix with composite axes that is a Kronecker product of matrices -> [(T, k)] or None"""
    ax = t.axes()
    k = len(ax[-1])
    if len(t.terms) != 1 or t.rank != 2:
        return None
    (ph, fs), c = t.terms[0]
    if ph:
        return None
    comps = tf._components(fs, set())
    # merge components touching the same position
    groups = {i: [] for i in range(k)}
    rest = []
    for comp in comps:
        cf = [fs[i] for i in comp]
        pos = {(ax[0].index(l) if l in ax[0] else ax[1].index(l)) for f in cf for l in f[3]
               if isinstance(l, int) and l < tf.BOUND0}
        if len(pos) > 1:
            return None
        if pos:
            groups[pos.pop()].extend(cf)
        else:
            rest.extend(cf)
    out = []
    for i in range(k):
        m = {ax[0][i]: 0, ax[1][i]: 1}
        cf = [(f[0], f[1], f[2], tuple(m.get(l, l) for l in f[3])) for f in groups[i]]
        d = (t.dims[ax[0][i]], t.dims[ax[1][i]])
        out.append(tf.build((1, 1), d, [(F1, 0, cf, tf._bounds(cf))]))
    s = tf.build((), (), [(c, 0, rest, tf._bounds(rest))])
    return s, out


def mat_apply(it, t, f, name, scalarf=None, kron=True):
    """apply a matrix function to (..., n, n); composite axes through their Kronecker structure"""
    if t.sizes[-1] == 1:
        if t.n > t.rank:
            it.unsupported("%s with composite batch axes" % name)
        return f(t)
    kp = kron_parts(t)
    if kp is None:
        # join the composite axes through the one-hot map
        n = prod_dims(struct(t)[-1])
        st = struct(t)
        u = restructure(it, t, st[:-2] + [(n,), (n,)])
        return f(u)
    s, parts = kp
    if not kron:
        n = prod_dims(struct(t)[-1])
        st = struct(t)
        return f(restructure(it, t, st[:-2] + [(n,), (n,)]))
    rs = [f(p) for p in parts]
    k = len(parts)
    dims = [p.dims[0] for p in parts] + [p.dims[1] for p in parts]
    r = tf.contract([(x, [i, k + i]) for i, x in enumerate(rs)], list(range(2 * k)), (k, k), dims, {})
    return tf.mul_T(scalarf(s), r) if scalarf else r


def inv_(it, a):
    a = to_arr(it, a)
    t = need_square(it, a.t, "inv")
    r = mat_apply(it, t, lambda x: tf.mpow(x, R.const(-1)), "inv", lambda s: tf.tpow(s, R.const(-1)))
    return mk(it, r, promote(a.dt, "f"), tr=a.tr)


def mpow_(it, a, e, name):
    a = to_arr(it, a)
    t = need_square(it, a.t, name)
    e = e if isinstance(e, R.Rat) else R.const(e)
    r = mat_apply(it, t, lambda x: tf.mpow(x, e), name, lambda s: tf.tpow(s, e))
    return mk(it, r, promote(a.dt, "f"), tr=a.tr)


def mfun_(it, a, f, name):
    a = to_arr(it, a)
    t = need_square(it, a.t, name)
    r = mat_apply(it, t, lambda x: tf.mfun(x, f), name, kron=False)
    return mk(it, r, promote(a.dt, "f"), tr=a.tr)


def herm_input(it, t, what):
    """eigh / cholesky read one triangle: a value not provably Hermitian is first made so"""
    if tf.is_herm(t):
        return t
    it.event("nonherm", what=what, t=t)
    return tf.op_T("lowerherm", [t], t.dims, herm=True, real=tf.is_real(t), nb=t.n - 2, inv=True)


def trace_(it, a, axis1=0, axis2=1, offset=0):
    a = to_arr(it, a)
    t = a.t
    r = t.rank
    axis1, axis2 = axis1 % r, axis2 % r
    s1, s2 = struct(t)[axis1], struct(t)[axis2]
    if s1 != s2:
        if prod_dims(s1) != prod_dims(s2):
            it.unsupported("trace of a rectangular array")
        s = max(s1, s2, key=len)
        st = struct(t)
        st[axis1] = st[axis2] = s
        t = restructure(it, t, st)
    ax = t.axes()
    keep = [k for k in range(r) if k not in (axis1, axis2)]
    lab, dims, sizes, bound = {}, [], [], {}
    for k in keep:
        for l in ax[k]:
            lab[l] = len(dims)
            dims.append(t.dims[l])
        sizes.append(len(ax[k]))
    for l1, l2 in zip(ax[axis1], ax[axis2]):
        m = tf.fresh()
        lab[l1] = lab[l2] = m
        bound[m] = t.dims[l1]
    u = tf.contract([(tf.flat(t), [lab[l] for l in range(t.n)])], list(range(len(dims))), tuple(sizes), dims, bound)
    return mk(it, u, a.dt, tr=a.tr)


def axes_list(it, axis, r):
    if axis is None:
        return list(range(r))
    if isinstance(axis, (tuple, list)):
        return [x % r for x in axis]
    if not isinstance(axis, int):
        it.unsupported("symbolic axis")
    if not -r <= axis < r:
        it.raise_("ValueError", "axis %d is out of bounds" % axis)
    return [axis % r]


def reduce_(it, a, axis, keepdims, name="sum"):
    a = to_arr(it, a)
    if name == "sum" and a.dt == "b":
        a2 = Arr(a.t, "i")
        a2.masks = a.masks
        a = a2
    t = a.t
    r = t.rank
    red = axes_list(it, axis, r)
    ax = t.axes()
    parts = [tf.flat(t)]
    newmasks = None
    mlabs = []
    if a.masks:
        for k, m in a.masks.items():
            if k in red:
                mlabs.append((m, list(ax[k])))
        if name not in ("sum",) and mlabs:
            it.unsupported("%s over a mask" % name)
        newmasks = {sum(1 for j in range(k) if j not in red) if not keepdims else k: m
                    for k, m in a.masks.items() if k not in red} or None
    lab, dims, sizes, bound = {}, [], [], {}
    for k in range(r):
        if k in red:
            if keepdims:
                sizes.append(1)
                dims.append(F1)
            for l in ax[k]:
                m = tf.fresh()
                lab[l] = m
                bound[m] = t.dims[l]
        else:
            for l in ax[k]:
                lab[l] = len(dims)
                dims.append(t.dims[l])
            sizes.append(len(ax[k]))
    if name == "sum":
        parts = [(tf.flat(t), [lab[l] for l in range(t.n)])] + [(m, [lab[l] for l in ls]) for m, ls in mlabs]
        u = tf.contract(parts, list(range(len(dims))), tuple(sizes), dims, bound)
    else:
        u = tf.reduce_T(name, tf.flat(t), [l for k in red for l in ax[k]])
        # labels kept in order
        kept = [k for k in range(r) if k not in red]
        s2 = tuple(len(ax[k]) for k in kept)
        u = tf.with_sizes(u, s2)
        if keepdims:
            axs = [list(x) for x in u.axes()]
            out = []
            j = 0
            for k in range(r):
                if k in red:
                    out.append([("new", F1)])
                else:
                    out.append(axs[j])
                    j += 1
            u = relayout(u, out)
    dt = a.dt
    if name in ("any", "all"):
        dt = "b"
    res = mk(it, u, dt, tr=a.tr)
    res.masks = newmasks
    return res


def count_of(it, a, axis):
    a = to_arr(it, a)
    red = axes_list(it, axis, a.ndim)
    n = tf.scalar(1)
    for k in red:
        if a.masks and k in a.masks:
            s = reduce_(it, Arr(a.masks[k], "i"), None, False)
            n = tf.mul_T(n, s.t)
        else:
            n = tf.mul_T(n, tf.scalar(a.shape[k]))
    return Arr(n, "i", py=True)


def mean_(it, a, axis=None, keepdims=False):
    s = reduce_(it, a, axis, keepdims)
    return ew(it, "Div", s, count_of(it, a, axis))


def sqrt_(it, a):
    a = to_arr(it, a)
    r = Arr(tf.tpow(a.t, tf.FH), promote(a.dt, "f"), None, a.py)
    if not r.py:
        it.register(r)
    r.tr = a.tr
    r.masks = a.masks
    return r


def abs_(it, a):
    if is_num(a):
        return abs(a)
    a = to_arr(it, a)
    r = mk(it, tf.fn("abs", [a.t]), "f" if a.dt == "c" else a.dt, tr=a.tr)
    r.masks = a.masks
    r.py = a.py
    return r


def conj_(it, a):
    a = to_arr(it, a)
    r = mk(it, tf.conj_T(a.t), a.dt, tr=a.tr)
    if a.dt != "c":
        pass
    r.masks = a.masks
    return r


def real_(it, a):
    a0 = a
    a = to_arr(it, a)
    if a.dt != "c" and a.dt != "?":
        return a
    r = mk(it, tf.real_part(a.t), "f", a.roots, tr=a.tr)
    r.masks = a.masks
    r.py = a.py
    return r


def imag_(it, a):
    a = to_arr(it, a)
    r = mk(it, tf.imag_part(a.t), "f" if a.dt == "c" else a.dt, tr=a.tr)
    r.masks = a.masks
    return r


def norm_(it, a, ord=None, axis=None, keepdims=False):
    a = to_arr(it, a)
    if isinstance(ord, str) and ord == "fro":
        ord = None
    if ord == 2 and (a.ndim == 1 or isinstance(axis, int)):
        ord = None
    sq = tf.mul_T(a.t, tf.conj_T(a.t))
    if ord is None:
        x = Arr(sq, "f")
        x.masks = a.masks
        x.tr = a.tr
        return sqrt_(it, reduce_(it, x, axis, keepdims))
    if ord == 1 and (a.ndim == 1 or isinstance(axis, int)):
        return reduce_(it, abs_(it, a), axis, keepdims)
    if isinstance(ord, float) and ord == INF and a.ndim == 1:
        return reduce_(it, abs_(it, a), axis, keepdims, "max")
    if axis is None or isinstance(axis, (tuple, list)) and len(axis) == a.ndim:
        return mk(it, tf.op_T("norm", [a.t], (), (str(ord),), real=True, pos=True), "f", tr=a.tr)
    it.unsupported("norm with ord=%r" % (ord,))


# ================================================================ shape operations
def view(it, a, fwd, back=None):
    """a view of a (shares memory)"""
    r = Arr(fwd(a.t), a.dt, a.roots)
    r.parent = (a, fwd, back)
    r.pver = a.ver
    r.tr = a.tr
    it.register(r)
    it.register(a)
    return r


def transpose_(it, a, perm=None):
    a = to_arr(it, a)
    r = a.ndim
    if perm is None:
        perm = list(range(r))[::-1]
    perm = [p % r for p in perm]
    if r < 2:
        return a if r == 0 else view(it, a, lambda t: t, lambda t, u: u)
    inv = [perm.index(k) for k in range(r)]
    v = view(it, a, lambda t: tf.permute_axes(t, perm), lambda t, u: tf.permute_axes(u, inv))
    if a.masks:
        v.masks = {inv[k]: m for k, m in a.masks.items()}
    return v


def resolve_shape(it, total, shape):
    if isinstance(shape, (int, Arr)) and not isinstance(shape, bool) and (not isinstance(shape, Arr) or shape.ndim == 0):
        shape = (shape,)
    if isinstance(shape, Arr):
        shape = [getitem(it, shape, k) for k in range(int(shape.shape[0].const()))]
    out = []
    unknown = None
    known = F1
    for k, s in enumerate(shape):
        if isinstance(s, int) and s == -1:
            unknown = k
            out.append(None)
        else:
            d = dim(it, s)
            out.append(d)
            known = R.mul(known, d)
    if unknown is not None:
        if known.is_zero():
            it.unsupported("reshape of an empty array")
        out[unknown] = R.div(total, known)
    elif known != total:
        it.event("shape_error")
        it.raise_("ValueError", "cannot reshape array of size %r into shape %r" % (total, out))
    return out


def size_of(t):
    return prod_dims(t.dims)


def reshape_C(it, t, shape):
    labs = [l for ax in t.axes() for l in ax if t.dims[l] != F1]
    used = tf.used_labels(t)
    new = []
    q = [("l", l, t.dims[l]) for l in labs]
    cur = t
    todo = list(shape)
    axes = []
    pend = [(l, t.dims[l]) for l in labs]
    splits = []          # (old label, [dims])
    # walk both lists
    out_axes = []
    i = 0
    rem = None
    pieces = list(pend)
    for d in shape:
        ax = []
        need = d
        while need != F1:
            if not pieces:
                raise Unsupported("reshape")
            l, ld = pieces.pop(0)
            x = R.div(need, ld)
            if _is_poly(x):
                ax.append((l, ld))
                need = x
                continue
            y = R.div(ld, need)
            if _is_poly(y):
                # split the label: slow part `need`, fast part y
                pieces.insert(0, (("rest", l), y))
                ax.append((("part", l), need))
                need = F1
                continue
            raise Unsupported("reshape %r of %r" % (shape, struct(t)))
        out_axes.append(ax)
    if pieces and any(p[1] != F1 for p in pieces):
        raise Unsupported("reshape leaves elements")
    # resolve splits: flatten names
    partmap = {}

    def root(x):
        while isinstance(x, tuple):
            x = x[1]
        return x
    seq = [(root(x), d, isinstance(x, tuple)) for ax in out_axes for x, d in ax]
    for r_, d, s in seq:
        partmap.setdefault(r_, []).append(d)
    lab, dims, sizes, bound, extra = {}, [], [], {}, []
    pos = {}
    for ax in out_axes:
        n0 = len(dims)
        for x, d in ax:
            rt = root(x)
            pos.setdefault(rt, []).append(len(dims))
            dims.append(d)
        if len(dims) == n0:
            dims.append(F1)
        sizes.append(len(dims) - n0)
    for l in range(t.n):
        if t.dims[l] == F1:
            lab[l] = 0
            continue
        ps = pos.get(l, [])
        if len(ps) == 1:
            lab[l] = ps[0]
        elif l not in used:
            lab[l] = ps[0] if ps else 0
        else:
            m = tf.fresh()
            lab[l] = m
            bound[m] = t.dims[l]
            extra.append((tf.from_node(tf.split_node([dims[p] for p in ps])), [m] + ps))
    return tf.contract([(tf.flat(t), [lab[l] for l in range(t.n)])] + extra, list(range(len(dims))), tuple(sizes),
                       dims, bound)


def _is_poly(x):
    return x.d == {(): 1} and all(v.denominator == 1 and v > 0 for v in x.n.values()) or \
        (x.d == {(): 1} and all(v.denominator == 1 for v in x.n.values()))


def reshape_(it, a, shape, order="C"):
    a = to_arr(it, a)
    if a.masks:
        return reshape_masked(it, a, shape)
    sh = resolve_shape(it, size_of(a.t), shape)
    if order == "A":
        order = "C"
    old = a.shape

    def f(t, sh=sh):
        if order == "F":
            u = tf.permute_axes(t, list(range(t.rank))[::-1])
            v = reshape_C(it, u, sh[::-1])
            return tf.permute_axes(v, list(range(v.rank))[::-1])
        return reshape_C(it, t, sh)

    def back(t, u):
        v = u
        if order == "F":
            v = tf.permute_axes(v, list(range(v.rank))[::-1])
            v = reshape_C(it, v, list(old)[::-1])
            v = tf.permute_axes(v, list(range(v.rank))[::-1])
        else:
            v = reshape_C(it, v, list(old))
        return restructure(it, v, struct(t))
    return view(it, a, f, back)


def reshape_masked(it, a, shape):
    # only the insertion / removal of unit axes
    sh = list(shape) if isinstance(shape, (tuple, list)) else [shape]
    (k, m), = a.masks.items()
    rest = [d for i, d in enumerate(a.shape) if i != k]
    if all(d == F1 for d in rest) and sum(1 for s in sh if s == -1) == 1 and \
            all(s == 1 for s in sh if not (isinstance(s, int) and s == -1)):
        j = [i for i, s in enumerate(sh) if s == -1][0]
        labs = list(a.t.axes()[k])
        t = relayout(a.t, [labs if i == j else [("new", F1)] for i in range(len(sh))])
        r = mk(it, t, a.dt)
        r.masks = {j: m}
        return r
    it.unsupported("reshape of a masked array")


def concat(it, arrs, axis=0):
    if isinstance(arrs, SymList):
        return concat_sym(it, arrs, axis)
    arrs = [to_arr(it, x) for x in iter_concrete(it, arrs)]
    if not arrs:
        it.raise_("ValueError", "need at least one array to concatenate")
    if axis is None:
        arrs = [reshape_(it, x, (-1,)) for x in arrs]
        axis = 0
    r = arrs[0].ndim
    if r == 0 or any(x.ndim != r for x in arrs):
        it.raise_("ValueError", "all the input array dimensions must match")
    if not -r <= axis < r:
        it.raise_("AxisError" if False else "ValueError", "axis out of bounds")
    axis %= r
    for x in arrs[1:]:
        for k in range(r):
            if k != axis and x.shape[k] != arrs[0].shape[k]:
                it.raise_("ValueError", "all the input array dimensions except for the concatenation axis must match")
    if len(arrs) == 1:
        return mk(it, arrs[0].t, arrs[0].dt, tr=arrs[0].tr)
    total = F0
    dt = arrs[0].dt
    for x in arrs:
        total = R.add(total, x.shape[axis])
        dt = promote(dt, x.dt)
    off = F0
    acc = None
    # align the other axes
    ts = []
    base = None
    for x in arrs:
        t = x.t
        st = struct(t)
        if len(st[axis]) > 1:
            st[axis] = (prod_dims(st[axis]),)
            t = restructure(it, t, st)
        ts.append(t)
    best = []
    for k in range(r):
        if k == axis:
            best.append(None)
        else:
            best.append(max((struct(t)[k] for t in ts), key=len))
    for t in ts:
        st = [b if b is not None else struct(t)[k] for k, b in enumerate(best)]
        t = restructure(it, t, st)
        size = t.shape[axis]
        if size.is_zero():
            continue
        pos = t.axes()[axis][0]
        m = tf.fresh()
        dims = list(t.dims)
        dims[pos] = total
        ls = list(range(t.n))
        ls[pos] = m
        u = tf.contract([(tf.flat(t), ls), (tf.from_node(tf.inj_node(total, off, size)), [pos, m])],
                        list(range(t.n)), t.sizes, dims, {m: size}) if size != F1 else \
            tf.contract([(tf.flat(t), [0 if k == pos else k for k in range(t.n)]),
                         (tf.eye(total), [pos, ("c", off)])], list(range(t.n)), t.sizes, dims, {})
        acc = u if acc is None else tf.add_T(acc, u)
        off = R.add(off, size)
    return mk(it, acc, dt, tr=track(it, arrs))


def concat_sym(it, sl, axis):
    e = to_arr(it, sl.elem)
    # elements with unit length along the axis: a plain lift
    if e.shape[axis % e.ndim] == F1:
        axs = [list(a) for a in e.t.axes()]
        axs[axis % e.ndim] = [("new", sl.n)]
        t = relayout(e.t, axs)
        pos = sum(len(a) for a in axs[:axis % e.ndim])
        pos = [k for k in range(t.n)][sum(t.sizes[:axis % e.ndim])]
        return mk(it, relabel(t, {sl.label: pos}), e.dt)
    axs = [list(a) for a in e.t.axes()]
    axs[axis % e.ndim] = [("new", sl.n)] + axs[axis % e.ndim]
    t = relayout(e.t, axs)
    pos = sum(t.sizes[:axis % e.ndim])
    return mk(it, relabel(t, {sl.label: pos}), e.dt)


def tile_(it, a, reps):
    a = to_arr(it, a)
    reps = list(reps) if isinstance(reps, (list, tuple)) else [reps]
    reps = [dim(it, r) for r in reps]
    r = max(len(reps), a.ndim)
    reps = [F1] * (r - len(reps)) + reps
    axs = [[("new", F1)]] * (r - a.ndim) + [list(x) for x in a.t.axes()]
    new = []
    for rp, ax in zip(reps, axs):
        new.append(([("new", rp)] if rp != F1 else []) + list(ax))
    return mk(it, relayout(a.t, new), a.dt, tr=a.tr)


def repeat_(it, a, n, axis=None):
    a = to_arr(it, a)
    n = dim(it, n)
    if axis is None:
        a = reshape_(it, a, (-1,))
        axis = 0
    axs = [list(x) for x in a.t.axes()]
    axs[axis % a.ndim] = axs[axis % a.ndim] + [("new", n)]
    return mk(it, relayout(a.t, axs), a.dt, tr=a.tr)


def expand_dims(it, a, axis):
    a = to_arr(it, a)
    axes = axis if isinstance(axis, (tuple, list)) else (axis,)
    r = a.ndim + len(axes)
    ps = sorted(x % r for x in axes)

    def f(t):
        axs = [list(x) for x in t.axes()]
        for p in ps:
            axs.insert(p, [("new", F1)])
        return relayout(t, axs)

    def back(t, u):
        return relayout(u, [list(x) for k, x in enumerate(u.axes()) if k not in ps])
    return view(it, a, f, back)


def squeeze_(it, a, axis=None):
    a = to_arr(it, a)
    if axis is None:
        ps = []
        for k, d in enumerate(a.shape):
            if d == F1:
                ps.append(k)
            elif d.const() is None and not (tf._cmp_lt(F1, d)):
                # a symbolic size: one or more
                if it.branch("eq0", tagT(tf.scalar(R.sub(d, F1)))):
                    ps.append(k)
    else:
        ps = axes_list(it, axis, a.ndim)
        for k in ps:
            if a.shape[k] != F1:
                s = tf.scalar(R.sub(a.shape[k], F1))
                if s.is_zero() is False and decide_atom(it, "eq0", tagT(canon_sign(norm_sign(s)))) is not True:
                    it.raise_("ValueError", "cannot select an axis to squeeze out which has size not equal to one")

    def f(t):
        axs = t.axes()
        u = relabel(t, {l: ("c", F0) for k in ps for l in axs[k]})
        return relayout(u, [list(x) for k, x in enumerate(axs) if k not in ps])

    def back(t, u):
        axs = [list(x) for x in u.axes()]
        for k in sorted(ps):
            axs.insert(k, [("new", F1)])
        return relayout(u, axs)
    return view(it, a, f, back)


def tagT(t):
    _tid[t.id] = t
    return t


def diag_(it, a, k=0):
    a = to_arr(it, a)
    t = a.t
    if a.ndim == 1:
        if t.sizes[0] != 1:
            it.unsupported("diag of a composite axis")
        n = t.dims[0]
        u = tf.contract([(t, [0]), (tf.eye(n), [0, 1])], [0, 1], (1, 1), (n, n), {})
        return mk(it, u, a.dt, tr=a.tr)
    if a.ndim == 2:
        return diagonal_(it, a, 0, 1)
    it.raise_("ValueError", "Input must be 1- or 2-d.")


def diagonal_(it, a, axis1=0, axis2=1):
    a = to_arr(it, a)
    t = a.t
    r = t.rank
    axis1 %= r
    axis2 %= r
    s1, s2 = struct(t)[axis1], struct(t)[axis2]
    if s1 != s2:
        it.unsupported("diagonal of a rectangular array")
    keep = [k for k in range(r) if k not in (axis1, axis2)]
    ax = t.axes()
    lab, dims, sizes = {}, [], []
    for k in keep + [axis1]:
        for l in ax[k]:
            lab[l] = len(dims)
            dims.append(t.dims[l])
        sizes.append(len(ax[k]))
    for l1, l2 in zip(ax[axis1], ax[axis2]):
        lab[l2] = lab[l1]
    u = tf.contract([(tf.flat(t), [lab[l] for l in range(t.n)])], list(range(len(dims))), tuple(sizes), dims, {})
    return mk(it, u, a.dt, tr=a.tr)


def kron_(it, a, b):
    a, b = to_arr(it, a), to_arr(it, b)
    r = max(a.ndim, b.ndim)
    ta = relayout(a.t, [[("new", F1)]] * (r - a.ndim) + [list(x) for x in a.t.axes()])
    tb = relayout(b.t, [[("new", F1)]] * (r - b.ndim) + [list(x) for x in b.t.axes()])
    la, lb, dims, sizes = [], [], [], []
    for k in range(r):
        n = 0
        for l in ta.axes()[k]:
            la.append(len(dims))
            dims.append(ta.dims[l])
            n += 1
        for l in tb.axes()[k]:
            lb.append(len(dims))
            dims.append(tb.dims[l])
            n += 1
        sizes.append(n)
    t = tf.contract([(tf.flat(ta), la), (tf.flat(tb), lb)], list(range(len(dims))), tuple(sizes), dims, {})
    t = relayout(t, [list(x) for x in t.axes()])
    return mk(it, t, promote(a.dt, b.dt), tr=a.tr or b.tr)


def einsum_(it, spec, *ops):
    if not isinstance(spec, str):
        it.unsupported("einsum with operand lists")
    ops = [to_arr(it, o) for o in ops]
    spec = spec.replace(" ", "")
    if "->" in spec:
        lhs, out = spec.split("->")
    else:
        lhs = spec
        cnt = {}
        for ch in lhs.replace(",", ""):
            cnt[ch] = cnt.get(ch, 0) + 1
        out = "".join(sorted(c for c in cnt if cnt[c] == 1 and c != "."))
        if "..." in lhs:
            out = "..." + out
    ins = lhs.split(",")
    if len(ins) != len(ops):
        it.raise_("ValueError", "einsum operand count")
    if "..." in lhs:
        k = max(o.ndim - len(s.replace("...", "")) for s, o in zip(ins, ops) if "..." in s)
        ins2 = []
        for s, o in zip(ins, ops):
            if "..." in s:
                kk = o.ndim - len(s.replace("...", ""))
                s = s.replace("...", "".join(chr(0x3b1 + k - kk + i) for i in range(kk)))
            ins2.append(s)
        ins = ins2
        out = out.replace("...", "".join(chr(0x3b1 + i) for i in range(k)))
    st = {}
    ts = []
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            it.raise_("ValueError", "einstein sum subscripts do not match the operand")
        for ch, d, x in zip(s, o.shape, struct(o.t)):
            if ch in st and prod_dims(st[ch]) != F1 and d != F1 and prod_dims(st[ch]) != d:
                it.event("shape_error")
                it.raise_("ValueError", "einsum: operands could not be broadcast together")
            if ch not in st or prod_dims(st[ch]) == F1 or len(x) > len(st[ch]):
                st[ch] = x
    labs, dims, sizes, bound = {}, [], [], {}
    for ch in out:
        labs[ch] = [len(dims) + i for i in range(len(st[ch]))]
        dims.extend(st[ch])
        sizes.append(len(st[ch]))
    for ch, s in st.items():
        if ch not in labs:
            labs[ch] = [tf.fresh() for _ in s]
            bound.update(zip(labs[ch], s))
    parts = []
    dt = ops[0].dt
    masks = {}
    for s, o in zip(ins, ops):
        dt = promote(dt, o.dt)
        t = restructure(it, o.t, [st[ch] if prod_dims(x) != F1 else x for ch, x in zip(s, struct(o.t))])
        ls = []
        for ch, ax in zip(s, t.axes()):
            if prod_dims([t.dims[l] for l in ax]) == F1 and prod_dims(st[ch]) != F1:
                ls.extend([0] * len(ax))
            else:
                ls.extend(labs[ch])
        parts.append((tf.flat(t), ls))
        if o.masks:
            for k, m in o.masks.items():
                masks[s[k]] = m
    outm = {}
    for ch, m in masks.items():
        if ch in out:
            outm[out.index(ch)] = m
        else:
            parts.append((m, labs[ch]))
    t = tf.contract(parts, list(range(len(dims))), tuple(sizes), dims, bound)
    r = mk(it, t, dt, tr=track(it, ops))
    r.masks = outm or None
    return r


def tensordot_(it, a, b, axes=2):
    a, b = to_arr(it, a), to_arr(it, b)
    if isinstance(axes, int):
        xa = list(range(a.ndim - axes, a.ndim))
        xb = list(range(axes))
    else:
        xa, xb = axes
        xa = [xa] if isinstance(xa, int) else list(xa)
        xb = [xb] if isinstance(xb, int) else list(xb)
        xa = [x % a.ndim for x in xa]
        xb = [x % b.ndim for x in xb]
    L = "abcdefghijklmnopqrstuvwxyz"
    sa = list(L[:a.ndim])
    sb = list(L[a.ndim:a.ndim + b.ndim])
    for x, y in zip(xa, xb):
        if a.shape[x] != b.shape[y]:
            it.event("shape_error")
            it.raise_("ValueError", "shape-mismatch for sum")
        sb[y] = sa[x]
    out = [c for k, c in enumerate(sa) if k not in xa] + [c for k, c in enumerate(sb) if k not in xb]
    return einsum_(it, "%s,%s->%s" % ("".join(sa), "".join(sb), "".join(out)), a, b)


def dot_(it, a, b):
    a, b = to_arr(it, a), to_arr(it, b)
    if a.ndim == 0 or b.ndim == 0:
        return ew(it, "Mult", a, b)
    if a.ndim <= 2 and b.ndim <= 2:
        return matmul(it, a, b)
    return tensordot_(it, a, b, ((a.ndim - 1,), (b.ndim - 2 if b.ndim > 1 else 0,)))


# ================================================================ indexing
class TriIdx:
    """np.triu_indices / tril_indices / diag_indices: a pair of index vectors"""


def tri_indices(it, kind, n, k=0):
    n = dim(it, n)
    cnt = n if kind == "diag" else R.div(R.mul(n, R.add(n, F1)), R.const(2))
    if kind == "diag":
        a = mk(it, tf.from_node(tf.iota_node(n)), "i")
        b = mk(it, tf.from_node(tf.iota_node(n)), "i")
        return (a, b)
    if k:
        it.unsupported("shifted triangle")
    r = mk(it, tf.from_node(tf.leaf("$%s_r" % kind, (cnt,), real=True, info=n)), "i")
    c = mk(it, tf.from_node(tf.leaf("$%s_c" % kind, (cnt,), real=True, info=n)), "i")
    return (r, c)


def sel_index(it, d, v):
    """an integer index along an axis of size d -> ('lab', label) or ('gather', Arr)"""
    if isinstance(v, bool):
        it.unsupported("boolean index")
    if isinstance(v, Fraction):
        it.raise_("IndexError", "only integers are valid indices")
    if isinstance(v, int):
        if v < 0:
            k = R.add(d, R.const(v))
        else:
            k = R.const(v)
        c = R.sub(d, k).const()
        if c is not None and c <= 0:
            it.raise_("IndexError", "index out of bounds")
        if d.const() is not None and k.const() is not None and k.const() < 0:
            it.raise_("IndexError", "index out of bounds")
        return ("lab", ("c", k))
    if isinstance(v, Arr):
        if v.dt == "b":
            return ("mask", v)
        if v.dt in "fc" and not (v.ndim == 0 and v.py and exact_int(v.t)):
            it.raise_("IndexError", "arrays used as indices must be of integer type")
        if v.ndim == 0:
            c = tf._is_scalar_const(v.t)
            if c is not None:
                if R.negative(c, tf.is_pos_sym):
                    c = R.add(d, c)
                return ("lab", ("c", c))
            if len(v.t.terms) == 1:
                (ph, fs), co = v.t.terms[0]
                if co == F1 and len(fs) == 1 and fs[0][0].kind == "iota" and fs[0][2] == F1:
                    if fs[0][0].dims[0] != d:
                        n = fs[0][0].dims[0]
                        if tf._cmp_ge0(R.sub(d, n)):
                            return ("inj", fs[0][3][0], n)
                        it.event("index_range", d=d, n=n)
                        return ("inj", fs[0][3][0], n)
                    return ("lab", fs[0][3][0])
            return ("gather", v)
        return ("gather", v)
    it.unsupported("index of type %s" % typename(v))


def slice_bounds(it, d, s):
    step = s.step
    if step is not None and not isinstance(step, int):
        it.unsupported("symbolic slice step")
    if step in (None, 1):
        lo = F0 if s.start is None else dim(it, s.start)
        hi = d if s.stop is None else dim(it, s.stop)
        if lo.const() is not None and lo.const() < 0 or R.negative(lo, tf.is_pos_sym):
            lo = R.add(d, lo)
        if hi.const() is not None and hi.const() < 0 or R.negative(hi, tf.is_pos_sym):
            hi = R.add(d, hi)
        if hi != d and tf._cmp_ge0(R.sub(hi, d)):
            hi = d
        elif hi != d and not tf._cmp_ge0(R.sub(d, hi)):
            # unknown: decide on this path
            x = tagT(norm_sign(tf.scalar(R.sub(hi, d))))
            dd = decide_atom(it, "gt0", x)
            if dd is None:
                dd = it.branch("gt0", x)
            if dd:
                hi = d
        n = R.sub(hi, lo)
        if n.const() is not None and n.const() < 0:
            n = F0
            hi = lo
        return lo, n, 1
    if step == -1 and s.start is None and s.stop is None:
        return F0, d, -1
    if d.const() is not None:
        return None
    if isinstance(step, int) and step > 1 and s.stop is None:
        # x[r::k] : split the axis when its size is a multiple of k
        lo = F0 if s.start is None else dim(it, s.start)
        return ("stride", lo, step)
    it.unsupported("slice with step")


def sel_index_ok(v):
    """the position of an open loop, which is in range"""
    if len(v.t.terms) != 1:
        return False
    (ph, fs), co = v.t.terms[0]
    return ph == 0 and co == F1 and len(fs) == 1 and fs[0][0].kind == "iota" and fs[0][2] == F1


def norm_index(it, a, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    if sum(1 for k in key if k is Ellipsis) > 1:
        it.raise_("IndexError", "an index can only have a single ellipsis")
    for j, k in enumerate(key):
        # x[i:i+1] is x[i] with the axis kept
        if isinstance(k, slice) and isinstance(k.start, Arr) and isinstance(k.stop, Arr) and k.step in (None, 1) \
                and k.start.ndim == 0 and k.stop.ndim == 0 and tf._is_scalar_const(k.start.t) is None \
                and tf._is_scalar_const(tf.sub_T(tf.flat(k.stop.t), tf.flat(k.start.t))) == F1 and sel_index_ok(k.start):
            key[j:j + 1] = [k.start, None]
            break
    ncons = 0
    for k in key:
        if k is None or k is Ellipsis or isinstance(k, NewAxis):
            continue
        if isinstance(k, Arr) and k.dt == "b":
            ncons += k.ndim
        else:
            ncons += 1
    if ncons > a.ndim:
        it.raise_("IndexError", "too many indices for array")
    if Ellipsis in [k for k in key if not isinstance(k, (Arr, list))]:
        i = [j for j, k in enumerate(key) if k is Ellipsis][0]
        key[i:i + 1] = [slice(None)] * (a.ndim - ncons)
    else:
        key = key + [slice(None)] * (a.ndim - ncons)
    return key


def getitem(it, o, k):
    if isinstance(o, (list, tuple)):
        if isinstance(k, Arr) and k.ndim == 0:
            c = tf._is_scalar_const(k.t)
            if c is not None and c.const() is not None:
                k = int(c.const())
        if isinstance(k, bool):
            k = int(k)
        if isinstance(k, int):
            if not -len(o) <= k < len(o):
                it.raise_("IndexError", "list index out of range")
            return o[k]
        if isinstance(k, slice):
            ks = [None if x is None else int(dim(it, x).const()) if dim(it, x).const() is not None else "sym"
                  for x in (k.start, k.stop, k.step)]
            if "sym" in ks:
                it.unsupported("symbolic slice of a list")
            return o[slice(*ks)]
        if isinstance(k, Arr) and k.ndim == 0 and not isinstance(o, str):
            return opaque_index(it, o, k)
        it.raise_("TypeError", "list indices must be integers")
    if isinstance(o, str):
        if isinstance(k, int):
            return o[k]
        return o[k] if isinstance(k, slice) else it.unsupported("string index")
    if isinstance(o, dict):
        h = hashable(it, k)
        if h not in o:
            it.raise_("KeyError", k)
        return o[h]
    if isinstance(o, SymList):
        return symlist_item(it, o, k)
    if isinstance(o, Inst):
        m, c = o.cls.lookup("__getitem__")
        if m is not None:
            return it.call(Bound(m, o), [k], {})
        if "_list" in o.attrs:
            return getitem(it, o.attrs["_list"], k)
        it.raise_("TypeError", "object is not subscriptable")
    if isinstance(o, Opaque):
        return opaque_item(it, o, k)
    if isinstance(o, range):
        return o[k]
    if isinstance(o, Arr):
        return arr_getitem(it, o, k)
    if o is None or isinstance(o, (int, Fraction, Func, ClassObj)):
        it.raise_("TypeError", "%s object is not subscriptable" % typename(o))
    it.unsupported("subscript of %s" % typename(o))


def opaque_index(it, o, k):
    it.unsupported("list indexed by a symbolic integer")


def symlist_item(it, o, k):
    if isinstance(k, int):
        lab = ("c", R.const(k) if k >= 0 else R.add(o.n, R.const(k)))
    elif isinstance(k, Arr):
        s = sel_index(it, o.n, k)
        if s[0] != "lab":
            it.unsupported("symbolic list index")
        lab = s[1]
    elif isinstance(k, slice):
        it_lo = 0 if k.start is None else k.start
        if k.stop is None and k.step is None and isinstance(it_lo, int) and it_lo >= 0:
            if it_lo == 0:
                return o
            return SymTail(o, it_lo)
        it.unsupported("slice of a symbolic list")
    else:
        it.unsupported("symbolic list index")

    def sub(v):
        if isinstance(v, Arr):
            r = mk(it, relabel(v.t, {o.label: lab}), v.dt, v.roots, tr=v.tr)
            r.py = v.py
            return r
        if isinstance(v, (list, tuple)):
            return like_seq(v, (sub(x) for x in v))
        if isinstance(v, dict):
            return {a: sub(b) for a, b in v.items()}
        if type(v).__name__ == "Thunk":
            return type(v)(sub(v.f), tuple(sub(x) for x in v.a), {a: sub(b) for a, b in v.k.items()})
        if isinstance(v, Bound):
            return Bound(v.func, sub(v.self))
        if isinstance(v, Inst) and v.serial not in o.shared:
            n = Inst(v.cls)
            it.register(n)
            n.attrs = {a: sub(b) for a, b in v.attrs.items()}
            n.tag = v.tag
            return n
        if isinstance(v, (SymList, SymTail, SymZip, SymEnum)):
            it.unsupported("a symbolic list of symbolic lists")
        return v
    return sub(o.elem)


class SymTail:
    def __init__(self, base, k):
        self.base, self.k = base, k


def arr_getitem(it, a, key):
    if isinstance(key, list):
        key = to_arr(it, key)
    # list inside tuple
    if isinstance(key, tuple):
        key = tuple(to_arr(it, k) if isinstance(k, list) else k for k in key)
    if a.masks:
        return masked_getitem(it, a, key)
    idx = norm_index(it, a, key)
    basic = all(k is None or isinstance(k, (NewAxis, slice, int)) or (isinstance(k, Arr) and k.ndim == 0 and k.dt != "b")
                for k in idx) and not any(isinstance(k, bool) for k in idx)
    if not basic:
        return adv_getitem(it, a, idx)
    plan = make_plan(it, a, idx)

    def fwd(t):
        return plan_get(it, t, plan)

    def back(t, u):
        return plan_set(it, t, plan, u)
    return_scalar = all(not isinstance(k, slice) and k is not None for k in idx)
    v = view(it, a, fwd, back)
    if return_scalar and v.ndim == 0:
        # a numpy scalar: a copy
        w = Arr(v.t, a.dt, frozenset())
        w.tr = a.tr
        it.register(w)
        return w
    return v


def make_plan(it, a, idx):
    plan = []
    k = 0
    for x in idx:
        if x is None or isinstance(x, NewAxis):
            plan.append(("new",))
            continue
        d = a.shape[k]
        if isinstance(x, slice):
            if x == slice(None):
                plan.append(("all",))
            else:
                b = slice_bounds(it, d, x)
                if b is None:
                    it.unsupported("slice with step on a concrete axis")
                if b[0] == "stride":
                    plan.append(("stride", b[1], b[2]))
                else:
                    lo, n, st = b
                    if st == -1:
                        plan.append(("rev",))
                    elif lo.is_zero() and n == d:
                        plan.append(("all",))
                    else:
                        plan.append(("rng", lo, n))
        else:
            s = sel_index(it, d, x)
            plan.append(s)
        k += 1
    return plan


def plan_get(it, t, plan):
    """apply a basic index"""
    # composite axes indexed by position must be joined first
    st = struct(t)
    k = 0
    need = list(st)
    for p in plan:
        if p[0] == "new":
            continue
        if p[0] != "all" and len(st[k]) > 1:
            need[k] = (prod_dims(st[k]),)
        k += 1
    if need != st:
        t = comp_select(it, t, plan, st)
        if isinstance(t, tuple):
            t, plan = t
    ax = t.axes()
    lab, dims, sizes, bound, extra = {}, [], [], {}, []
    k = 0
    for p in plan:
        if p[0] == "new":
            dims.append(F1)
            sizes.append(1)
            continue
        ls = ax[k]
        k += 1
        if p[0] == "all":
            for l in ls:
                lab[l] = len(dims)
                dims.append(t.dims[l])
            sizes.append(len(ls))
            continue
        l = ls[0]
        d = t.dims[l]
        if p[0] == "lab":
            lab[l] = p[1]
        elif p[0] == "inj":
            m = tf.fresh()
            lab[l] = m
            bound[m] = d
            extra.append((tf.from_node(tf.inj_node(d, F0, p[2])), [m, p[1]]))
        elif p[0] == "gather":
            m = tf.fresh()
            lab[l] = m
            bound[m] = d
            hot = onehot(p[1].t, d)
            extra.append((hot, [m]))
        elif p[0] == "rng":
            if p[2] == F1:
                lab[l] = ("c", p[1])
                dims.append(F1)
            elif p[2].is_zero():
                lab[l] = ("c", F0)
                dims.append(F0)
            else:
                m = tf.fresh()
                lab[l] = m
                bound[m] = d
                extra.append((tf.from_node(tf.inj_node(d, p[1], p[2])), [m, len(dims)]))
                dims.append(p[2])
            sizes.append(1)
        elif p[0] == "rev":
            m = tf.fresh()
            lab[l] = m
            bound[m] = d
            extra.append((tf.from_node(tf.rev_node(d)), [m, len(dims)]))
            dims.append(d)
            sizes.append(1)
        elif p[0] == "stride":
            step = R.const(p[2])
            q = R.div(d, step)
            m = tf.fresh()
            lab[l] = m
            bound[m] = d
            extra.append((tf.from_node(tf.split_node([q, step])), [m, len(dims), ("c", p[1])]))
            dims.append(q)
            sizes.append(1)
    parts = [(tf.flat(t), [lab[l] for l in range(t.n)])] + extra
    return contract_c(parts, dims, sizes, bound)


def contract_c(parts, dims, sizes, bound):
    return tf.contract(parts, list(range(len(dims))), tuple(sizes), dims, bound)


def comp_select(it, t, plan, st):
    """integer / range selection on composite axes: join with the one-hot split map"""
    need = []
    k = 0
    for p in plan:
        if p[0] == "new":
            continue
        need.append((prod_dims(st[k]),) if p[0] != "all" and len(st[k]) > 1 else st[k])
        k += 1
    return restructure(it, t, need)


def onehot(tidx, d):
    """over (labels of tidx..., i): 1 where tidx == i"""
    n = tidx.n
    dims = list(tidx.dims) + [d]
    a = tf.contract([(tf.flat(tidx), list(range(n)))], list(range(n + 1)), (1,) * (n + 1), dims, {})
    b = tf.contract([(tf.from_node(tf.iota_node(d)), [n])], list(range(n + 1)), (1,) * (n + 1), dims, {})
    x = canon_sign(tf.sub_T(a, b))
    return tf.fn("eq0", [x])


def plan_set(it, t, plan, u):
    """t with the selected part replaced by u (already of the shape of the selection)"""
    st = struct(t)
    t0 = t
    k = 0
    need = list(st)
    for p in plan:
        if p[0] == "new":
            continue
        if p[0] != "all" and len(st[k]) > 1:
            need[k] = (prod_dims(st[k]),)
        k += 1
    t = restructure(it, t, need)
    ax = t.axes()
    # labels of u in order of the plan (skipping lab selections)
    uax = u.axes()
    lab_u = {}
    extra = []
    bound = {}
    j = 0
    k = 0
    sel = []           # projector factors on t: list of (kind, label, data)
    for p in plan:
        if p[0] == "new":
            for l in uax[j]:
                lab_u[l] = 0
            j += 1
            continue
        ls = ax[k]
        k += 1
        l = ls[0]
        d = t.dims[l]
        if p[0] == "all":
            want = [t.dims[x] for x in ls]
            have = [u.dims[x] for x in uax[j]]
            if want != have:
                if prod_dims(have) == prod_dims(want):
                    s2 = struct(u)
                    s2[j] = tuple(want)
                    u = restructure(it, u, s2)
                    return plan_set(it, t0, plan, u)
                raise Unsupported("assignment of a different structure")
            for x, y in zip(uax[j], ls):
                lab_u[x] = y
            j += 1
        elif p[0] == "lab":
            extra.append((tf.eye(d), [l, p[1]]))
            sel.append((tf.eye(d), [l, p[1]], None))
        elif p[0] == "rng":
            if len(uax[j]) > 1:
                s2 = struct(u)
                s2[j] = (prod_dims(s2[j]),)
                u = restructure(it, u, s2)
                return plan_set(it, t0, plan, u)
            if p[2].is_zero():
                return t0
            if p[2] == F1:
                lab_u[uax[j][0]] = 0
                extra.append((tf.eye(d), [l, ("c", p[1])]))
                sel.append((tf.eye(d), [l, ("c", p[1])], None))
            else:
                m = tf.fresh()
                lab_u[uax[j][0]] = m
                bound[m] = p[2]
                extra.append((tf.from_node(tf.inj_node(d, p[1], p[2])), [l, m]))
                sel.append((tf.inj_node(d, p[1], p[2]), l, "inj"))
            j += 1
        elif p[0] == "rev":
            m = tf.fresh()
            lab_u[uax[j][0]] = m
            bound[m] = d
            extra.append((tf.from_node(tf.rev_node(d)), [l, m]))
            j += 1
        elif p[0] == "gather" and p[1].ndim == 0:
            hot = onehot(p[1].t, d)
            extra.append((hot, [l]))
            sel.append((hot, [l], None))
        elif p[0] == "inj":
            extra.append((tf.from_node(tf.inj_node(d, F0, p[2])), [l, p[1]]))
            sel.append((tf.from_node(tf.inj_node(d, F0, p[2])), [l, p[1]], None))
        elif p[0] == "stride":
            step = R.const(p[2])
            q = R.div(d, step)
            m = tf.fresh()
            lab_u[uax[j][0]] = m
            bound[m] = q
            extra.append((tf.from_node(tf.split_node([q, step])), [l, m, ("c", p[1])]))
            sel.append((tf.split_node([q, step]), l, ("stride", q, step, p[1])))
            j += 1
        else:
            raise Unsupported("assignment through this index")
    put = contract_c([(tf.flat(u), [lab_u[x] for x in range(u.n)])] + extra, t.dims, t.sizes, bound)
    if t.is_zero() or all(p[0] in ("all", "new", "rev") for p in plan):
        r = put
    else:
        parts = []
        bd = {}
        ls = list(range(t.n))
        for nd, l, kind in sel:
            if kind is None:
                parts.append((nd, l))
            elif kind == "inj":
                m, m2 = tf.fresh(), tf.fresh()
                bd[m] = nd.info[2]
                bd[m2] = t.dims[l]
                ls[l] = m2
                parts.append((tf.from_node(nd), [l, m]))
                parts.append((tf.from_node(nd), [m2, m]))
            else:
                _, q, step, off = kind
                m, m2 = tf.fresh(), tf.fresh()
                bd[m] = q
                bd[m2] = t.dims[l]
                ls[l] = m2
                parts.append((tf.from_node(nd), [l, m, ("c", off)]))
                parts.append((tf.from_node(nd), [m2, m, ("c", off)]))
        old = contract_c([(tf.flat(t), ls)] + parts, t.dims, t.sizes, bd)
        r = tf.add_T(tf.sub_T(t, old), put)
    return restructure(it, r, st) if need != st else r


def adv_getitem(it, a, idx):
    """boolean masks and integer arrays"""
    # a single boolean mask along one axis
    masks = [(i, x) for i, x in enumerate(idx) if isinstance(x, Arr) and x.dt == "b"]
    if masks:
        if len(masks) > 1 or any(not (x is None or x == slice(None)) for i, x in enumerate(idx)
                                 if i != masks[0][0] and not isinstance(x, Arr)) or \
                any(isinstance(x, Arr) for i, x in enumerate(idx) if i != masks[0][0]):
            it.unsupported("mixed boolean index")
        i, m = masks[0]
        if m.ndim != 1:
            if m.ndim == a.ndim:
                it.unsupported("full boolean mask selection")
            it.unsupported("multi-dimensional boolean mask")
        if a.shape[i] != m.shape[0]:
            it.raise_("IndexError", "boolean index did not match")
        r = mk(it, a.t, a.dt, tr=a.tr)
        r.masks = {i: tf.flat(m.t)}
        return r
    # integer arrays: one-hot contraction
    arrs = [(i, x) for i, x in enumerate(idx) if isinstance(x, Arr) and x.ndim > 0]
    pos = [i for i, x in arrs]
    if any(x is None for x in idx):
        it.unsupported("newaxis with advanced index")
    shp = arrs[0][1].ndim
    scal = [(i, x) for i, x in enumerate(idx) if i not in pos and not isinstance(x, slice)]
    if any(x.ndim != shp for i, x in arrs) or any(isinstance(x, slice) and x != slice(None) for x in idx) or scal:
        # several outer-shaped arrays (np.ix_)
        ts = broadcast(it, [x.t for i, x in arrs])
        if scal or any(isinstance(x, slice) and x != slice(None) for x in idx):
            it.unsupported("mixed advanced index")
        arrs = [(i, Arr(t, x.dt)) for (i, x), t in zip(arrs, ts)]
    if pos != list(range(pos[0], pos[0] + len(pos))):
        it.unsupported("separated advanced indices")
    t = a.t
    st = struct(t)
    t = restructure(it, t, [(prod_dims(s),) if i in pos else s for i, s in enumerate(st)])
    ax = t.axes()
    idim = arrs[0][1].t.dims
    lab, dims, sizes, bound, extra = {}, [], [], {}, []
    ilabs = None
    for k in range(t.rank):
        if k in pos:
            if ilabs is None:
                ilabs = [len(dims) + i for i in range(len(idim))]
                dims.extend(idim)
                sizes.extend(arrs[0][1].t.sizes)
            m = tf.fresh()
            l = ax[k][0]
            lab[l] = m
            bound[m] = t.dims[l]
            x = dict(arrs)[k]
            if x.t is tf.from_node(tf.iota_node(t.dims[l])) and len(ilabs) == 1:
                extra.append((tf.eye(t.dims[l]), [ilabs[0], m]))
            else:
                extra.append((onehot(x.t, t.dims[l]), ilabs + [m]))
        else:
            for l in ax[k]:
                lab[l] = len(dims)
                dims.append(t.dims[l])
            sizes.append(len(ax[k]))
    u = contract_c([(tf.flat(t), [lab[l] for l in range(t.n)])] + extra, dims, sizes, bound)
    return mk(it, u, a.dt, tr=a.tr)


def masked_getitem(it, a, key):
    idx = norm_index(it, a, key)
    m = dict(a.masks)
    b = Arr(a.t, a.dt)
    out_masks = {}
    j = 0
    k = 0
    for x in idx:
        if x is None or isinstance(x, NewAxis):
            j += 1
            continue
        if k in m:
            if not (isinstance(x, slice) and x == slice(None)):
                it.unsupported("index on a masked axis")
            out_masks[j] = m[k]
        k += 1
        if isinstance(x, slice):
            j += 1
    r = arr_getitem(it, b, tuple(idx))
    w = mk(it, r.t, a.dt, tr=a.tr)
    w.masks = out_masks or None
    return w


def setitem(it, o, k, v):
    if isinstance(o, list):
        if isinstance(k, Arr) and k.ndim == 0:
            c = tf._is_scalar_const(k.t)
            k = int(c.const()) if c is not None and c.const() is not None else it.unsupported("symbolic list index")
        o[k] = v
        return
    if isinstance(o, dict):
        o[hashable(it, k)] = v
        return
    if isinstance(o, Inst):
        m, c = o.cls.lookup("__setitem__")
        if m is not None:
            it.call(Bound(m, o), [k, v], {})
            return
        if "_list" in o.attrs:
            o.attrs["_list"][k] = v
            return
    if isinstance(o, Opaque):
        it.event("setitem_ext", obj=o, key=k, value=v)
        return
    if isinstance(o, Arr):
        return arr_setitem(it, o, k, v)
    if isinstance(o, tuple):
        it.raise_("TypeError", "'tuple' object does not support item assignment")
    it.unsupported("item assignment on %s" % typename(o))


def note_write(it, a, what):
    b = a.base()
    it.event("write", arr=a, base=b, roots=a.roots | b.roots, what=what)


def cast_to(it, a, v):
    """value stored into an array of dtype a.dt"""
    if a.dt in "f?" and v.dt == "c":
        if a.dt == "f":
            it.event("narrow", frm="complex", to="float", arr=a)
            return Arr(tf.real_part(v.t), "f")
    if a.dt == "i" and v.dt in "fc" and not v.t.is_zero():
        c = tf._is_scalar_const(v.t)
        if not (c is not None and exact_int(tf.scalar(c))):
            it.event("narrow", frm=v.dt, to="int", arr=a)
            return Arr(tf.fn("trunc", [tf.real_part(v.t)]), "i")
    return v


def write_into(it, a, r):
    """a[...] = r keeping the buffer (augmented assignment)"""
    r = to_arr(it, r)
    if rank_gt(r.dt, a.dt):
        if a.dt in "ib" and r.dt in "fc" or a.dt == "f" and r.dt == "c":
            it.raise_("TypeError", "Cannot cast ufunc output (casting rule 'same_kind')")
    note_write(it, a, "inplace")
    t = r.t
    if t.shape != a.t.shape:
        t2 = broadcast(it, [t, a.t])[0]
        if t2.shape != a.t.shape:
            it.event("shape_error")
            it.raise_("ValueError", "non-broadcastable output operand")
        t = t2
    t = restructure(it, t, struct(a.t)) if struct(t) != struct(a.t) and any(
        l in tf.used_labels(a.t) for l in range(a.t.n)) else t
    a.set(t)


def rank_gt(a, b):
    o = {"b": 0, "i": 1, "f": 2, "?": 2, "c": 3}
    return o[a] > o[b]


def arr_setitem(it, a, key, v):
    if a.tr:
        it.event("traced_write", arr=a)
    v = to_arr(it, v)
    note_write(it, a, "setitem")
    if isinstance(key, tuple):
        key = tuple(to_arr(it, k) if isinstance(k, list) else k for k in key)
    elif isinstance(key, list):
        key = to_arr(it, key)
    v = cast_to(it, a, v)
    idx = norm_index(it, a, key)
    if any(isinstance(k, Arr) and k.dt == "b" for k in idx):
        ms = [k for k in idx if isinstance(k, Arr) and k.dt == "b"]
        if len(ms) > 1:
            it.unsupported("several masks")
        m = ms[0]
        pos = [i for i, k in enumerate(idx) if k is m][0]
        if any(isinstance(k, slice) and k != slice(None) or isinstance(k, (int,)) or k is None for k in idx if k is not m):
            it.unsupported("mixed boolean assignment")
        mt = m.t
        axs = [[("new", F1)]] * 0
        # place the mask on its axes
        full = [[("new", F1)] for _ in range(pos)] + [list(x) for x in mt.axes()] + \
            [[("new", F1)] for _ in range(a.ndim - pos - m.ndim)]
        mt2 = relayout(mt, full)
        nm = to_arr(it, logical_not(it, m))
        nt2 = relayout(nm.t, full)
        vt = v.t
        tm, tn, ta = broadcast(it, [mt2, nt2, a.t])[0:3]
        vv = broadcast(it, [vt, a.t])
        if vv[0].sizes != ta.sizes:
            it.unsupported("masked assignment")
        if v.masks is None and v.ndim and v.shape[0] != F1 and pos == 0 and v.ndim == a.ndim and v.shape == a.shape:
            # assigning a full array under a mask needs x[m] = y[m]; y has the wrong length in general
            it.unsupported("masked assignment of a full array")
        mm = min_max(tm, vv[0], ta)
        a.set(mm if mm is not None else tf.add_T(tf.mul_T(tn, ta), tf.mul_T(tm, vv[0])))
        return
    if any(isinstance(k, Arr) and k.ndim > 0 for k in idx):
        return scatter(it, a, idx, v)
    plan = make_plan(it, a, idx)
    cur = plan_get(it, a.t, plan)
    vt = v.t
    if vt.rank > cur.rank:
        # leading unit axes of the value are dropped
        drop = vt.rank - cur.rank
        if all(d == F1 for d in vt.shape[:drop]):
            vt = relayout(vt, [list(x) for x in vt.axes()[drop:]])
    b = broadcast(it, [vt, cur])[0] if vt.rank or cur.rank else vt
    if b.shape != cur.shape:
        it.event("shape_error")
        it.raise_("ValueError", "could not broadcast input array into shape")
    a.set(plan_set(it, a.t, plan, b))


def scatter(it, a, idx, v):
    arrs = [x for x in idx if isinstance(x, Arr) and x.ndim > 0]
    if len(arrs) != a.ndim or any(x.ndim != 1 for x in arrs):
        it.unsupported("scatter assignment")
    t = a.t
    if any(len(s) > 1 for s in struct(t)):
        it.unsupported("scatter on composite axes")
    cnt = arrs[0].t.dims[0]
    hots = []
    for k, x in enumerate(arrs):
        if x.t is tf.from_node(tf.iota_node(t.dims[k])):
            hots.append(tf.eye(t.dims[k]))
        else:
            hots.append(onehot(x.t, t.dims[k]))
    m = tf.fresh()
    vt = v.t
    vl = [m] if vt.n else []
    if vt.n and vt.dims[0] == F1:
        vl = [0]
    put = contract_c([(tf.flat(vt), vl)] + [(h, [m, k]) for k, h in enumerate(hots)], t.dims, t.sizes, {m: cnt})
    m = tf.fresh()
    old = contract_c([(tf.flat(t), list(range(t.n)))] + [(h, [m, k]) for k, h in enumerate(hots)], t.dims, t.sizes,
                     {m: cnt})
    a.set(tf.add_T(tf.sub_T(t, old), put))


def minmax2(it, name, a, b):
    if is_num(a) and is_num(b):
        return max(a, b) if name == "max" else min(a, b)
    x, y = to_arr(it, a), to_arr(it, b)
    if x.ndim or y.ndim:
        it.unsupported("builtin %s of arrays" % name)
    if x.dt == "i" == y.dt and x.py and y.py and x.t is not y.t:
        # sizes: each order is followed for itself
        return (a if it.truth(compare(it, "Lt", x, y)) else b) if name == "min" else (b if it.truth(compare(it, "Lt", x, y)) else a)
    tmax, tmin = tf.fn('maximum', [x.t, y.t]), tf.fn('minimum', [x.t, y.t])
    r = Arr(tmax if name == "max" else tmin, promote(x.dt, y.dt), py=x.py and y.py)
    return r


# ================================================================ iteration
def iter_maybe(it, v):
    """list of items when the length is concrete, else None"""
    if isinstance(v, (list, tuple)):
        return list(v)
    if isinstance(v, (set, frozenset)):
        return sorted(v, key=repr)
    if isinstance(v, dict):
        return list(v.keys())
    if isinstance(v, str):
        return list(v)
    if isinstance(v, range):
        return list(v)
    if isinstance(v, Arr):
        if v.ndim == 0:
            it.raise_("TypeError", "iteration over a 0-d array")
        c = v.shape[0].const()
        if c is None:
            return None
        return [getitem(it, v, k) for k in range(int(c))]
    if isinstance(v, SymEnum):
        x = iter_maybe(it, v.it)
        return None if x is None else [(v.start + i, y) for i, y in enumerate(x)]
    if isinstance(v, SymZip):
        xs = [iter_maybe(it, x) for x in v.its]
        if any(x is None for x in xs):
            if all(x is None for x in xs):
                return None
            it.unsupported("zip of a symbolic and a concrete sequence")
        return [tuple(t) for t in zip(*xs)]
    if isinstance(v, (SymList, SymRange, SymTail, SymOff)):
        return None
    if isinstance(v, Inst):
        m, c = v.cls.lookup("__iter__")
        if m is not None:
            return iter_maybe(it, it.call(Bound(m, v), [], {}))
        if "_list" in v.attrs:
            return iter_maybe(it, v.attrs["_list"])
        m, c = v.cls.lookup("__len__")
        if m is not None:
            n = it.call(Bound(m, v), [], {})
            if isinstance(n, int):
                return [getitem(it, v, i) for i in range(n)]
    if type(v).__name__ == "Thunk":
        return [v.f, tuple(v.a), dict(v.k)]
    if isinstance(v, Opaque):
        if "items" in v.attrs:
            return v.attrs["items"]
        it.unsupported("iteration over external object %s" % v.name)
    it.unsupported("iteration over %s" % typename(v))


def iter_concrete(it, v):
    r = iter_maybe(it, v)
    if r is None:
        it.unsupported("iteration over a sequence of unknown length")
    return r


def sym_len(it, v):
    if isinstance(v, Arr):
        return v.shape[0]
    if isinstance(v, (SymList, SymRange, SymOff)):
        return v.n
    if isinstance(v, SymTail):
        return R.sub(v.base.n, R.const(v.k))
    if isinstance(v, SymEnum):
        return sym_len(it, v.it)
    if isinstance(v, SymZip):
        ns = [sym_len(it, x) for x in v.its]
        if any(n != ns[0] for n in ns):
            it.unsupported("zip of different lengths")
        return ns[0]
    it.unsupported("length of %s" % typename(v))


def sym_elem(it, v, label):
    if isinstance(v, Arr):
        n = v.shape[0]
        return arr_getitem(it, v, Arr(iota(n, label), "i", py=True))
    if isinstance(v, SymRange):
        return Arr(iota(v.n, label), "i", py=True)
    if isinstance(v, SymOff):
        return binop(it, "Add", v.off, Arr(iota(v.n, label), "i", py=True))
    if isinstance(v, SymList):
        return symlist_item(it, v, Arr(iota(v.n, label), "i", py=True))
    if isinstance(v, SymTail):
        n = R.sub(v.base.n, R.const(v.k))
        it.unsupported("iteration over the tail of a symbolic list")
    if isinstance(v, SymEnum):
        e = sym_elem(it, v.it, label)
        i = Arr(iota(sym_len(it, v.it), label), "i", py=True)
        if v.start:
            i = binop(it, "Add", i, v.start)
        return (i, e)
    if isinstance(v, SymZip):
        return tuple(sym_elem(it, x, label) for x in v.its)
    it.unsupported("element of %s" % typename(v))


def positive_dim(it, n):
    c = n.const()
    if c is not None:
        return c > 0
    x = tagT(norm_sign(tf.scalar(n)))
    d = decide_atom(it, "gt0", x)
    if d is None:
        d = it.branch("gt0", x)
    return d


def unpack(it, v, n):
    if isinstance(v, (tuple, list)):
        return list(v)
    if isinstance(v, Opaque) and n is not None and "items" not in v.attrs:
        return [Opaque("%s[%d]" % (v.name, i)) for i in range(n)]
    return iter_concrete(it, v)


def hashable(it, k):
    if isinstance(k, Arr):
        it.unsupported("array as a key")
    return k


def tostr(it, x):
    if isinstance(x, str):
        return x
    if isinstance(x, Arr):
        it.event("str", arr=x)
        return "<array#%d>" % x.t.id
    if isinstance(x, Fraction):
        return str(float(x))
    if isinstance(x, (list, tuple)):
        b = ", ".join(tostr(it, y) for y in x)
        return "[%s]" % b if isinstance(x, list) else "(%s)" % b
    if isinstance(x, Inst):
        m, c = x.cls.lookup("__str__")
        if m is None:
            m, c = x.cls.lookup("__repr__")
        if m is not None:
            r = it.call(Bound(m, x), [], {})
            return r if isinstance(r, str) else str(r)
    return str(x)


def typename(v):
    if isinstance(v, Arr):
        return "ndarray" if not v.py else "number"
    if isinstance(v, (Inst, ListInst)):
        return v.cls.name
    return type(v).__name__


def type_token(v):
    """identity of type objects"""
    if isinstance(v, Opaque) and "type" in v.attrs:
        return v.attrs["type"]
    if isinstance(v, ClassObj):
        return ("class", id(v))
    return None


def as_dt(v):
    if isinstance(v, DT):
        return v
    if isinstance(v, Opaque) and "dt" in v.attrs:
        return DT(v.attrs["dt"])
    if isinstance(v, str):
        m = {"float": "f", "float64": "f", "complex": "c", "complex128": "c", "int": "i", "int64": "i", "bool": "b",
             "f": "f", "c": "c", "d": "f", "D": "c", "float32": "f", "complex64": "c", "i": "i", "F": "c", "e": "f",
             "f4": "f", "c8": "c", "f8": "f", "c16": "c", "single": "f", "csingle": "c"}
        if v in m:
            return DT(m[v])
    return None


def dtype_of(it, v, default=None):
    if v is None:
        return default
    d = as_dt(v)
    if d is None:
        it.unsupported("dtype %r" % (v,))
    nm = v if isinstance(v, str) else str(v.attrs.get("type") or v.name).rpartition(".")[2] if isinstance(v, Opaque) else ""
    if nm in SINGLE:
        it.event("narrow", frm="double precision", to=nm)
    return d.kind


SINGLE = {"f", "F", "e", "f4", "c8", "float32", "complex64", "float16", "single", "csingle", "half"}


class SymOff:
    """range(a, a + n) with n symbolic"""
    def __init__(self, n, off):
        self.n, self.off = n, off
