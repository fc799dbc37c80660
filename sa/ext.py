"""Tables of external names: builtins, numpy, scipy, sklearn, pymanopt, autograd, joblib, ..."""
import ast
import inspect
from fractions import Fraction
import rat as R
import tf
from tf import F0, F1
import npm
from npm import *
from npm import _MODS  # noqa


# ================================================================ types
def mktype(name, kind=None, call=None):
    return Opaque("type:" + name, call=call, attrs={"type": name, **({"dt": kind} if kind else {})})


TYPES = {}


def T(name, kind=None):
    t = TYPES.get(name)
    if t is None:
        t = TYPES[name] = mktype(name, kind)
    return t


for _n, _k in (("int", "i"), ("float", "f"), ("complex", "c"), ("bool", "b"), ("str", None), ("list", None),
               ("tuple", None), ("dict", None), ("set", None), ("NoneType", None), ("ndarray", None),
               ("memmap", None), ("float64", "f"), ("complex128", "c"), ("int64", "i"), ("bool_", "b"),
               ("function", None), ("type", None), ("object", None), ("range", None), ("slice", None)):
    T(_n, _k)
T("float32", "f"), T("complex64", "c"), T("int32", "i"), T("generic"), T("number"), T("floating"), T("integer")
T("complexfloating"), T("Number"), T("Iterable"), T("Sequence"), T("frozenset")


def tokens(v):
    """(exact type, all types) of a runtime value"""
    if isinstance(v, bool):
        return "bool", {"bool", "int", "Number"}
    if isinstance(v, int):
        return "int", {"int", "Number"}
    if isinstance(v, (float, Fraction)):
        return "float", {"float", "Number"}
    if isinstance(v, complex):
        return "complex", {"complex", "Number"}
    for c, n in ((str, "str"), (list, "list"), (tuple, "tuple"), (dict, "dict"), (set, "set"), (range, "range"),
                 (frozenset, "frozenset"), (slice, "slice")):
        if isinstance(v, c):
            return n, {n, "Iterable"} | ({"Sequence"} if n in ("list", "tuple", "str", "range") else set())
    if v is None:
        return "NoneType", {"NoneType"}
    if isinstance(v, Arr):
        if v.meta == "memmap":
            return "memmap", {"memmap", "ndarray", "Iterable"}
        if v.ndim == 0 and v.meta != "0d":
            if v.py:
                n = {"i": "int", "f": "float", "c": "complex", "b": "bool"}.get(v.dt, "float")
                return n, {n, "Number"} | ({"int"} if n == "bool" else set())
            n = {"i": "int64", "f": "float64", "c": "complex128", "b": "bool_"}.get(v.dt, "float64")
            s = {n, "generic", "number", "Number"}
            if v.dt == "f":
                s |= {"float", "floating"}
            if v.dt == "c":
                s |= {"complex", "complexfloating"}
            if v.dt == "i":
                s |= {"integer"}
            return n, s
        return "ndarray", {"ndarray", "Iterable"}
    if isinstance(v, (SymList,)):
        return "list", {"list", "Iterable", "Sequence"}
    if isinstance(v, (Func, Native, Bound)):
        return "function", {"function"}
    if isinstance(v, ClassObj):
        return "type", {"type"}
    return None, set()


def type_of(it, v):
    if isinstance(v, (Inst, ListInst)):
        return v.cls
    if isinstance(v, Opaque) and "rtype" in v.attrs:
        return v.attrs["rtype"]
    n, _ = tokens(v)
    if n is None:
        return Opaque("type(%s)" % getattr(v, "name", "?"))
    return T(n)


def isinst(it, v, c):
    if isinstance(c, (tuple, list)):
        rs = [isinst(it, v, x) for x in c]
        return any(rs)
    if isinstance(c, ClassObj):
        if isinstance(v, (Inst, ListInst)):
            return c in v.cls.mro()
        if isinstance(v, Opaque) and tokens(v)[0] is None and "rtype" not in v.attrs and not v.attrs.get("notinst"):
            return it.branch_opaque(Opaque("isinstance(%s,%s)" % (v.name, c.name)))
        return False
    if isinstance(c, Opaque):
        tn = c.attrs.get("type")
        if tn == "object":
            return True
        if isinstance(v, Inst):
            return c in v.cls.mro() or tn in getattr(v, "types", ())
        n, s = tokens(v)
        if n is None:
            if isinstance(v, Opaque):
                if "types" in v.attrs:
                    return tn in v.attrs["types"] or c.name in v.attrs["types"]
                return it.branch_opaque(Opaque("isinstance(%s,%s)" % (v.name, c.name)))
            return False
        return tn in s
    it.unsupported("isinstance with %r" % (c,))


# ================================================================ helper
def table(d, name=None, **flags):
    def deco(f):
        n = name or f.__name__.rstrip("_")
        names = [n] if isinstance(n, str) else n
        sig = inspect.signature(f)

        def run(it, args, kw):
            out = None
            for k in ("overwrite_a", "overwrite_b"):
                i = "ab".index(k[-1])
                if kw.get(k) and i < len(args) and isinstance(args[i], Arr):
                    note_write(it, args[i], k)
            if kw.get("out", None) is not None and "out" not in sig.parameters:
                kw = dict(kw)
                out = kw.pop("out")
            try:
                sig.bind(it, *args, **kw)
            except TypeError as e:
                if out is not None and isinstance(out, Arr):
                    note_write(it, out, "out=")
                it.unsupported("arguments of external %s: %s" % (names[0], e))
            r = f(it, *args, **kw)
            if out is not None:
                write_out(it, out, r)
                return out[0] if isinstance(out, tuple) else out
            return r
        for x in names:
            d[x] = Native(x, run)
            d[x].flags = flags
        return f
    return deco


# ================================================================ builtins
BI = {}


@table(BI, "len")
def _len(it, v):
    if isinstance(v, (list, tuple, dict, str, set, range)):
        return len(v)
    if isinstance(v, Arr):
        if v.ndim == 0:
            it.raise_("TypeError", "len() of unsized object")
        return num(v.shape[0])
    if isinstance(v, (SymList, SymRange, SymTail, SymEnum, SymZip)):
        return num(sym_len(it, v))
    if isinstance(v, Inst):
        m, c = v.cls.lookup("__len__")
        if m is not None:
            return it.call(Bound(m, v), [], {})
        if "_list" in v.attrs:
            return _len(it, v.attrs["_list"])
    if isinstance(v, Opaque) and "items" in v.attrs:
        return len(v.attrs["items"])
    it.unsupported("len of %s" % typename(v))


@table(BI, "range")
def _range(it, a, b=None, step=1):
    if b is None:
        a, b = 0, a
    vals = []
    for x in (a, b, step):
        if isinstance(x, Arr):
            c = tf._is_scalar_const(x.t)
            c = c.const() if c is not None else None
            if c is not None and c.denominator == 1:
                x = int(c)
        if isinstance(x, (Fraction, float)):
            it.raise_("TypeError", "'float' object cannot be interpreted as an integer")
        vals.append(x)
    a, b, step = vals
    if all(isinstance(x, int) for x in vals):
        return range(a, b, step)
    if step == 1 and a == 0:
        return SymRange(dim(it, b))
    if step == 1:
        n = binop(it, "Sub", b, a)
        nd = dim(it, n)
        if nd.const() is not None:
            return [binop(it, "Add", a, k) for k in range(int(nd.const()))]
        return SymOff(nd, a)
    it.unsupported("range(%r, %r, %r)" % (a, b, step))


@table(BI, "enumerate")
def _enumerate(it, v, start=0):
    x = iter_maybe(it, v)
    if x is not None:
        return [(start + i, y) for i, y in enumerate(x)]
    return SymEnum(v, start)


@table(BI, "zip")
def _zip(it, *vs):
    xs = [iter_maybe(it, v) for v in vs]
    if all(x is not None for x in xs):
        return [tuple(t) for t in zip(*xs)]
    return SymZip(list(vs))


@table(BI, "isinstance")
def _isinstance(it, v, c):
    return isinst(it, v, c)


@table(BI, "issubclass")
def _issubclass(it, a, c):
    if isinstance(c, (tuple, list)):
        return any(_issubclass(it, a, x) for x in c)
    return a is c or (isinstance(a, ClassObj) and c in a.mro())


@table(BI, "hasattr")
def _hasattr(it, o, name):
    return it.getattr(o, name, None) is not None if not isinstance(o, Inst) else _has(it, o, name)


def _has(it, o, name):
    try:
        return it.getattr_(o, name) is not UNDEF
    except PyRaise as e:
        if e.exc.cls.name == "AttributeError":
            return False
        raise


@table(BI, "getattr")
def _getattr(it, o, name, *d):
    if d:
        try:
            return it.getattr(o, name, d[0])
        except PyRaise as e:
            if e.exc.cls.name == "AttributeError":
                return d[0]
            raise
    return it.getattr(o, name)


@table(BI, "setattr")
def _setattr(it, o, name, v):
    it.setattr(o, name, v)


@table(BI, "callable")
def _callable(it, v):
    if isinstance(v, (Func, Native, Bound, ClassObj)):
        return True
    if isinstance(v, Inst):
        return v.cls.lookup("__call__")[0] is not None
    if isinstance(v, Opaque):
        return True if v.call or "type" in v.attrs else it.branch_opaque(Opaque("callable(%s)" % v.name))
    return False


@table(BI, "abs")
def _abs(it, v):
    if is_num(v):
        return abs(v)
    return abs_(it, v)


def fold(it, name, args):
    acc = args[0]
    for x in args[1:]:
        acc = minmax2(it, name, acc, x)
    return acc


def _mm(name):
    def f(it, *args, key=None, default=None):
        if len(args) == 1:
            xs = iter_maybe(it, args[0])
            if xs is None:
                return reduce_(it, to_arr(it, args[0]), None, False, name)
            if not xs:
                if default is not None:
                    return default
                it.raise_("ValueError", "%s() arg is an empty sequence" % name)
            args = xs
        return fold(it, name, list(args))
    return f


table(BI, "max")(_mm("max"))
table(BI, "min")(_mm("min"))


@table(BI, "sum")
def _sum(it, v, start=0):
    xs = iter_maybe(it, v)
    if xs is None:
        a = to_arr(it, v)
        r = reduce_(it, a, 0, False, "sum")
        return r if start == 0 else binop(it, "Add", start, r)
    acc = start
    for x in xs:
        acc = binop(it, "Add", acc, x)
    return acc


def _anyall(name):
    def f(it, v):
        xs = iter_maybe(it, v)
        if xs is None:
            return reduce_(it, to_arr(it, v), None, False, name)
        for x in xs:
            if it.truth(x) == (name == "any"):
                return name == "any"
        return name == "all"
    return f


table(BI, "any")(_anyall("any"))
table(BI, "all")(_anyall("all"))


@table(BI, "print")
def _print(it, *a, **k):
    it.event("log", level="print")


@table(BI, "property")
def _property(it, f, fset=None):
    return Prop(f, fset)


@table(BI, "staticmethod")
def _static(it, f):
    return StaticM(f)


@table(BI, "classmethod")
def _classm(it, f):
    return ClassM(f)


@table(BI, "map")
def _map(it, f, *vs):
    z = _zip(it, *vs)
    if isinstance(z, list):
        return [it.call(f, list(t), {}) for t in z]
    lab = ("o", it.path.fresh_name("map"))
    e = sym_elem(it, z, lab)
    return SymList(sym_len(it, z), lab, it.call(f, list(e), {}))


@table(BI, "filter")
def _filter(it, f, v):
    return [x for x in iter_concrete(it, v) if it.truth(it.call(f, [x], {}) if f is not None else x)]


@table(BI, "sorted")
def _sorted(it, v, key=None, reverse=False):
    xs = iter_concrete(it, v)
    if all(isinstance(x, (int, str)) for x in xs) and key is None:
        return sorted(xs, reverse=reverse)
    if len(xs) < 2:
        return xs
    it.unsupported("sorted")


@table(BI, "reversed")
def _reversed(it, v):
    xs = iter_maybe(it, v)
    if xs is not None:
        return list(reversed(xs))
    if isinstance(v, SymRange):
        return SymList(v.n, ("o", "rev"), binop(it, "Sub", binop(it, "Sub", num(v.n), 1),
                                                Arr(iota(v.n, ("o", "rev")), "i", py=True)))
    it.unsupported("reversed")


@table(BI, "iter")
def _iter(it, v):
    return v


@table(BI, "next")
def _next(it, v, *d):
    xs = iter_concrete(it, v)
    return xs[0] if xs else (d[0] if d else it.raise_("StopIteration"))


@table(BI, "round")
def _round(it, v, nd=None):
    if isinstance(v, (int, Fraction)):
        return round(v) if nd is None else Fraction(round(v, nd))
    if isinstance(v, Arr) and v.ndim == 0 and nd is None:
        if v.dt == "i" or exact_int(v.t):
            return Arr(v.t, "i", py=True)
        r = cum(it, "rint", [v])
        return Arr(r.t, "i", py=True)
    return cum(it, "rint", [v])


@table(BI, "divmod")
def _divmod(it, a, b):
    return (binop(it, "FloorDiv", a, b), binop(it, "Mod", a, b))


@table(BI, "pow")
def _pow(it, a, b):
    return binop(it, "Pow", a, b)


@table(BI, "id")
def _id(it, a):
    return id(a)


@table(BI, "repr")
def _repr(it, a):
    return tostr(it, a)


@table(BI, "format")
def _format(it, a, spec=""):
    return tostr(it, a)


@table(BI, "vars")
def _vars(it, o):
    return o.attrs


@table(BI, "dir")
def _dir(it, o=None):
    it.unsupported("dir()")


def as_int(it, v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, (Fraction, float)):
        return int(v)
    if isinstance(v, str):
        return int(v)
    if isinstance(v, Arr):
        if v.dt == "c":
            it.raise_("TypeError", "can't convert complex to int")
        x = v.t
        if v.ndim:
            x = squeeze_(it, v).t
            if x.rank:
                it.raise_("TypeError", "only size-1 arrays can be converted to Python scalars")
        c = tf._is_scalar_const(x)
        if c is not None and c.const() is not None:
            return int(c.const())
        if c is None and not x.rank:
            c = tf._is_scalar_const(tf.fn("trunc", [x]))
            if c is not None and c.const() is not None:
                return int(c.const())
        if v.dt in ("i", "b") or exact_int(x):
            return Arr(x, "i", py=True)
        return Arr(npm.trunc_t(x), "i", py=True)
    it.unsupported("int(%s)" % typename(v))


def as_float(it, v):
    if isinstance(v, (bool, int)):
        return Fraction(int(v))
    if isinstance(v, (Fraction, float)):
        return v
    if isinstance(v, str):
        x = float(v)
        return x if x != x or abs(x) == INF else Fraction(v)
    if isinstance(v, Arr):
        if v.dt == "c":
            it.raise_("TypeError", "can't convert complex to float")
        x = v.t
        if v.ndim:
            x = squeeze_(it, v).t
            if x.rank:
                it.raise_("TypeError", "only size-1 arrays can be converted to Python scalars")
        return Arr(x, "f", py=True)
    it.unsupported("float(%s)" % typename(v))


def call_type(it, name, args, kw):
    if args and traced(args[0]) and name in ("int", "float", "complex"):
        it.event("boxattr", name="__%s__" % name)
    if name == "int" or name in ("int64", "int32"):
        return as_int(it, args[0]) if args else 0
    if name in ("float", "float64", "float32"):
        if args and isinstance(args[0], Arr) and args[0].ndim and name != "float":
            return astype(it, args[0], "f")
        return as_float(it, args[0]) if args else Fraction(0)
    if name in ("complex", "complex128", "complex64"):
        a = args[0] if args else 0
        if len(args) > 1:
            a = binop(it, "Add", a, binop(it, "Mult", args[1], Arr(tf.imag_unit(), "c", py=True)))
        a = to_arr(it, a)
        return Arr(a.t, "c", py=True)
    if name in ("bool", "bool_"):
        v = args[0] if args else False
        if isinstance(v, Arr) and v.ndim == 0 and v.dt == "b":
            return v
        return it.truth(v)
    if name == "str":
        return tostr(it, args[0]) if args else ""
    if name in ("list", "tuple"):
        if not args:
            return [] if name == "list" else ()
        xs = iter_maybe(it, args[0])
        if xs is None:
            v = args[0]
            if isinstance(v, SymList):
                return v
            lab = ("o", it.path.fresh_name("lst"))
            return SymList(sym_len(it, v), lab, sym_elem(it, v, lab))
        return list(xs) if name == "list" else tuple(xs)
    if name == "dict":
        d = {}
        if args:
            if isinstance(args[0], dict):
                d.update(args[0])
            else:
                for kv in iter_concrete(it, args[0]):
                    k, v = iter_concrete(it, kv)
                    d[hashable(it, k)] = v
        d.update(kw)
        return d
    if name in ("set", "frozenset"):
        return set(iter_concrete(it, args[0])) if args else set()
    if name == "type":
        if len(args) == 1:
            return type_of(it, args[0])
    if name == "slice":
        a = list(args)
        if len(a) == 1:
            return slice(None, a[0], None)
        return slice(*(a + [None] * (3 - len(a))))
    if name == "object":
        o = Opaque("object()")
        return o
    if name == "ndarray":
        return NP["empty"].fn(it, args, kw)
    it.unsupported("call of type %s" % name)


def builtin(it, name):
    """value of a builtin name or UNDEF"""
    if name in BI:
        return BI[name]
    if name in ("int", "float", "complex", "bool", "str", "list", "tuple", "dict", "set", "frozenset", "type",
                "object", "slice"):
        return T(name)
    if name in ("True", "False", "None"):
        return {"True": True, "False": False, "None": None}[name]
    if name == "NotImplemented":
        return Opaque("NotImplemented", attrs={"truth": True})
    if name == "Ellipsis":
        return Ellipsis
    if name == "__debug__":
        return True
    if name == "__file__":
        return ""
    import builtins
    c = getattr(builtins, name, None)
    if isinstance(c, type) and issubclass(c, BaseException):
        return exc_class(name)
    return UNDEF


# ================================================================ numpy
NP = {}          # functions of numpy (and autograd.numpy)
LA = {}          # numpy.linalg
RND = {}         # numpy.random
SLA = {}         # scipy.linalg


def shape_of(it, s):
    if isinstance(s, (list, tuple)):
        out = [dim(it, x) for x in s]
    elif isinstance(s, SymList):
        it.unsupported("shape of symbolic rank")
    elif isinstance(s, Arr) and s.ndim == 1:
        out = [dim(it, x) for x in iter_concrete(it, s)]
    else:
        out = [dim(it, s)]
    return tuple(out)


def full_t(dims, r):
    return tf.const_T(dims, r)


@table(NP, "zeros")
def _zeros(it, shape, dtype=None, order="C"):
    a = mk(it, full_t(shape_of(it, shape), 0), dtype_of(it, dtype, "f"))
    if not a.ndim:
        a.meta = "0d"
    return a


@table(NP, "empty")
def _empty(it, shape, dtype=None, order="C"):
    d = shape_of(it, shape)
    dt = dtype_of(it, dtype, "f")
    node = tf.leaf(it.path.fresh_name("$uninit"), d, real=dt != "c")
    return mk(it, tf.from_node(node), dt)


@table(NP, "ones")
def _ones(it, shape, dtype=None, order="C"):
    return mk(it, full_t(shape_of(it, shape), 1), dtype_of(it, dtype, "f"))


@table(NP, "full")
def _full(it, shape, v, dtype=None):
    v = to_arr(it, v)
    d = shape_of(it, shape)
    z = Arr(full_t(d, 1), v.dt)
    r = ew(it, "Mult", z, v)
    r.dt = dtype_of(it, dtype, v.dt)
    return r


def like(it, a, r, dtype):
    a = to_arr(it, a)
    t = full_t(a.t.dims, r)
    return mk(it, tf.with_sizes(t, a.t.sizes), dtype_of(it, dtype, a.dt))


@table(NP, "zeros_like")
def _zl(it, a, dtype=None):
    return like(it, a, 0, dtype)


@table(NP, "ones_like")
def _ol(it, a, dtype=None):
    return like(it, a, 1, dtype)


@table(NP, "empty_like")
def _el(it, a, dtype=None):
    a = to_arr(it, a)
    dt = dtype_of(it, dtype, a.dt)
    t = tf.from_node(tf.leaf(it.path.fresh_name("$uninit"), a.t.dims, real=dt != "c"))
    return mk(it, tf.with_sizes(t, a.t.sizes), dt)


@table(NP, "full_like")
def _fl(it, a, v, dtype=None):
    a = to_arr(it, a)
    r = ew(it, "Mult", like(it, a, 1, None), v)
    r.dt = dtype_of(it, dtype, a.dt)
    return r


@table(NP, "eye")
def _eye(it, n, m=None, k=0, dtype=None):
    if m is not None or k:
        it.unsupported("rectangular or shifted eye")
    return mk(it, tf.eye(dim(it, n)), dtype_of(it, dtype, "f"))


@table(NP, "identity")
def _identity(it, n, dtype=None):
    return mk(it, tf.eye(dim(it, n)), dtype_of(it, dtype, "f"))


def copy_(it, a, dt=None):
    r = mk(it, a.t, dt or a.dt)
    r.tr = a.tr
    r.masks = a.masks
    return r


def astype(it, a, dt, copy=True):
    a = to_arr(it, a)
    t = a.t
    if dt != a.dt and a.dt != "?":
        t = cast_t(it, a, dt)
    elif not copy:
        return a
    r = mk(it, t, dt)
    r.tr = a.tr
    r.masks = a.masks
    return r


def cast_t(it, a, dt):
    if rank(a.dt) <= rank(dt):
        return a.t
    it.event("narrow", frm=a.dt, to=dt, val=a)
    if a.dt == "c" and dt in ("f", "i"):
        t = tf.real_part(a.t)
        return t if dt == "f" else tf.fn("trunc", [t])
    if dt == "i":
        return a.t if exact_int(a.t) else tf.fn("trunc", [a.t])
    if dt == "b":
        return tf.fn("ne0", [a.t])
    return a.t


def rank(d):
    return {"b": 0, "i": 1, "f": 2, "?": 2, "c": 3}[d]


def is_arraylike(v):
    return isinstance(v, (Arr, int, Fraction, float, list, tuple, SymList, bool, range, SymRange))


@table(NP, ["asarray", "asanyarray", "ascontiguousarray", "asfortranarray"])
def _asarray(it, v, dtype=None, order=None):
    if isinstance(v, Arr) and not v.py:
        dt = dtype_of(it, dtype, v.dt)
        return v if dt == v.dt else astype(it, v, dt)
    return _array(it, v, dtype)


@table(NP, "array")
def _array(it, v, dtype=None, copy=True, ndmin=0, order=None):
    if isinstance(v, (Opaque, Inst)) and not (isinstance(v, Inst) and "_list" in v.attrs):
        return opaque_array(it, v)
    a = to_arr(it, v)
    dt = dtype_of(it, dtype, a.dt)
    if copy is False and isinstance(v, Arr) and dt == a.dt:
        return v
    r = astype(it, a, dt)
    if r.ndim == 0:
        r.meta = "0d"
    while r.ndim < ndmin:
        r = expand_dims(it, r, 0)
    return r


def opaque_array(it, v):
    it.unsupported("np.array of %s" % typename(v))


@table(NP, "copy")
def _copy(it, a):
    return copy_(it, to_arr(it, a))


@table(NP, "arange")
def _arange(it, a, b=None, step=1, dtype=None):
    r = _range(it, a, b, step)
    x = to_arr(it, list(r) if isinstance(r, range) else r)
    return x if dtype is None else astype(it, x, dtype_of(it, dtype))


@table(NP, "linspace")
def _linspace(it, a, b, n=50):
    it.unsupported("linspace")


for _nm in ("exp", "log", "log10", "log2", "log1p", "expm1", "sin", "cos", "tan", "tanh", "sinh", "cosh", "arcsin",
            "arccos", "arctan", "floor", "ceil", "sign", "rint", "trunc", "cbrt", "isnan", "isfinite", "isinf"):
    def _mkcum(nm):
        def f(it, a, out=None, dtype=None, where=True):
            if where is not True:
                it.unsupported("where= of a ufunc")
            r = cum(it, nm, [a])
            if out is not None:
                write_out(it, out, r)
                return out
            return r
        return f
    table(NP, _nm)(_mkcum(_nm))


def write_out(it, out, r):
    if isinstance(out, tuple):
        out = out[0]
    arr_setitem(it, out, Ellipsis, r)


@table(NP, ["round", "around", "round_"])
def _nround(it, a, decimals=0):
    x = to_arr(it, a)
    if decimals == 0:
        if exact_int(x.t) or x.dt == "i":
            return x
        return cum(it, "rint", [a])
    return cum(it, "round", [a], extra=(str(decimals),))


@table(NP, "sqrt")
def _sqrt(it, a, out=None):
    r = sqrt_(it, a)
    if out is not None:
        write_out(it, out, r)
        return out
    return r


@table(NP, "square")
def _square(it, a):
    return binop(it, "Mult", a, a)


@table(NP, "reciprocal")
def _recip(it, a):
    return binop(it, "Div", 1, a)


@table(NP, ["abs", "absolute", "fabs"])
def _nabs(it, a):
    return abs_(it, a)


@table(NP, ["conj", "conjugate"])
def _conj(it, a):
    return conj_(it, a)


@table(NP, "real")
def _real(it, a):
    return real_(it, a)


@table(NP, "imag")
def _imag(it, a):
    return imag_(it, a)


@table(NP, "angle")
def _angle(it, a):
    return cum(it, "angle", [a])


for _nm, _op in (("add", "Add"), ("subtract", "Sub"), ("multiply", "Mult"), ("divide", "Div"),
                 ("true_divide", "Div"), ("power", "Pow"), ("float_power", "Pow"), ("mod", "Mod"),
                 ("remainder", "Mod"), ("floor_divide", "FloorDiv")):
    def _mkb(op):
        def f(it, a, b, out=None, dtype=None):
            r = binop(it, op, npv(it, a), npv(it, b))
            if out is not None:
                write_out(it, out, r)
                return out
            return r
        return f
    table(NP, _nm)(_mkb(_op))


def npv(it, a):
    return to_arr(it, a) if isinstance(a, (list, tuple, SymList, range)) else a


@table(NP, "negative")
def _neg(it, a):
    return unary(it, "USub", npv(it, a))


@table(NP, "matmul")
def _matmul(it, a, b):
    return matmul(it, a, b)


for _nm, _op in (("greater", "Gt"), ("greater_equal", "GtE"), ("less", "Lt"), ("less_equal", "LtE"),
                 ("equal", "Eq"), ("not_equal", "NotEq")):
    def _mkc(op):
        def f(it, a, b):
            return compare(it, op, npv(it, a), npv(it, b))
        return f
    table(NP, _nm)(_mkc(_op))


@table(NP, "logical_and")
def _land(it, a, b):
    return logical(it, "and", a, b)


@table(NP, "logical_or")
def _lor(it, a, b):
    return logical(it, "or", a, b)


@table(NP, "logical_not")
def _lnot(it, a):
    return logical_not(it, a)


def _mm2(name):
    def f(it, a, b):
        x, y = to_arr(it, a), to_arr(it, b)
        tx, ty = broadcast(it, [x.t, y.t])
        tmax, tmin = tf.fn('maximum', [tx, ty]), tf.fn('minimum', [tx, ty])
        r = Arr(tmax if name == "max" else tmin, promote(x.dt, y.dt), py=False)
        r.tr = x.tr or y.tr
        it.register(r)
        return r
    return f


table(NP, ["maximum", "fmax"])(_mm2("max"))
table(NP, ["minimum", "fmin"])(_mm2("min"))


@table(NP, "clip")
def _clip(it, a, lo, hi):
    r = a
    if lo is not None:
        r = _mm2("max")(it, r, lo)
    if hi is not None:
        r = _mm2("min")(it, r, hi)
    return r


@table(NP, "where")
def _where(it, c, a=None, b=None):
    if a is None:
        it.unsupported("np.where with one argument")
    return where(it, c, a, b)


def _red(name):
    def f(it, a, axis=None, dtype=None, out=None, keepdims=False, initial=None, ddof=0):
        x = npv(it, a)
        if not isinstance(x, Arr):
            x = to_arr(it, x)
        if name == "mean":
            return mean_(it, x, axis, keepdims)
        r = reduce_(it, x, axis, keepdims, name)
        if out is not None:
            write_out(it, out, r)
            return out
        return r
    return f


for _nm, _o in (("sum", "sum"), ("prod", "prod"), ("max", "max"), ("amax", "max"), ("min", "min"), ("amin", "min"),
                ("any", "any"), ("all", "all"), ("mean", "mean"), ("average", "mean"), ("nansum", "sum")):
    table(NP, _nm)(_red(_o))


def var_(it, a, axis=None, ddof=0, keepdims=False):
    a = to_arr(it, a)
    m = mean_(it, a, axis, True)
    d = ew(it, "Sub", a, m)
    sq = ew(it, "Mult", d, conj_(it, d)) if a.dt == "c" else ew(it, "Mult", d, d)
    s = reduce_(it, sq, axis, keepdims, "sum")
    n = R.sub(count_of(it, a, axis), dim(it, ddof))
    r = binop(it, "Div", s, num(n))
    if isinstance(r, Arr):
        r.dt = "f"
    return r


@table(NP, "var")
def _var(it, a, axis=None, ddof=0, keepdims=False):
    return var_(it, a, axis, ddof, keepdims)


@table(NP, "std")
def _std(it, a, axis=None, ddof=0, keepdims=False):
    return sqrt_(it, var_(it, a, axis, ddof, keepdims))


@table(NP, ["cumsum", "cumprod", "sort", "argsort", "argmax", "argmin", "unique", "diff", "flip", "roll",
            "percentile", "quantile", "nonzero", "searchsorted", "linspace", "convolve", "interp", "fft", "argwhere",
            "flatnonzero", "count_nonzero", "rot90", "flipud", "fliplr"])
def _unmod(it, a, *rest, **kw):
    if isinstance(kw.get("out"), Arr):
        note_write(it, kw["out"], "out=")
    if kw.get("copy", True) is False and isinstance(a, Arr):
        note_write(it, a, "copy=False")
    it.unsupported("numpy function not modelled")


@table(NP, ["median", "nanmedian"])
def _median(it, a, axis=None, out=None, overwrite_input=False, keepdims=False):
    x = to_arr(it, a)
    if x.dt == "c" or out is not None or overwrite_input:
        it.unsupported("median of complex data")
    return reduce_(it, x, axis, keepdims, "median")


@table(NP, "nan_to_num")
def _nan_to_num(it, a, copy=True, nan=0.0, posinf=None, neginf=None):
    """the values themselves: the analysis is over finite numbers"""
    x = to_arr(it, a)
    if copy is False or copy == 0:
        note_write(it, x, "copy=False")
        return x
    return copy_(it, x)


@table(NP, "ptp")
def _ptp(it, a, axis=None, out=None, keepdims=False):
    x = to_arr(it, a)
    return ew(it, "Sub", reduce_(it, x, axis, keepdims, "max"), reduce_(it, x, axis, keepdims, "min"))


@table(NP, "finfo")
def _finfo(it, dt=None):
    o = Opaque("finfo")
    o.attrs.update(np_finfo(it, dt))
    return o


def np_finfo(it, d):
    """constants of double precision; of single precision when asked for"""
    single = "32" in typename(d) or "32" in str(getattr(d, "name", d)) or "complex64" in str(getattr(d, "name", d))
    e, mx, tn = (23, Fraction(2) ** 128, Fraction(1, 2 ** 126)) if single else (52, Fraction(2) ** 1024, Fraction(1, 2 ** 1022))
    mx = mx * (1 - Fraction(1, 2 ** (e + 1)))
    eps = Fraction(1, 2 ** e)
    return {"eps": eps, "max": mx, "min": -mx, "tiny": tn, "smallest_normal": tn, "epsneg": eps / 2,
            "resolution": Fraction(1, 10 ** (6 if single else 15)), "precision": 6 if single else 15}


@table(NP, "real_if_close")
def _real_if_close(it, a, tol=100):
    x = to_arr(it, a)
    return real_(it, x) if x.dt != "c" or tf.is_real(x.t) else x


@table(NP, ["copyto"])
def _copyto(it, dst, src, casting="same_kind", where=True):
    if where is not True:
        note_write(it, dst, "copyto")
        it.unsupported("copyto with a mask")
    arr_setitem(it, dst, Ellipsis, src)


@table(NP, ["put", "place", "putmask", "put_along_axis"])
def _putters(it, a, *rest, **kw):
    note_write(it, a, "put")
    it.unsupported("numpy function not modelled")


@table(NP, "trace")
def _trace(it, a, offset=0, axis1=0, axis2=1):
    return trace_(it, a, axis1, axis2, offset)


@table(NP, "transpose")
def _transpose(it, a, axes=None):
    return transpose_(it, to_arr(it, a), axes)


@table(NP, "swapaxes")
def _swap(it, a, i, j):
    a = to_arr(it, a)
    p = list(range(a.ndim))
    p[i], p[j] = p[j], p[i]
    return transpose_(it, a, p)


@table(NP, "moveaxis")
def _moveaxis(it, a, src, dst):
    a = to_arr(it, a)
    p = [k for k in range(a.ndim) if k != src % a.ndim]
    p.insert(dst % a.ndim, src % a.ndim)
    return transpose_(it, a, p)


@table(NP, "reshape")
def _reshape(it, a, shape, order="C"):
    return reshape_(it, to_arr(it, a), shape, order)


@table(NP, "ravel")
def _ravel(it, a, order="C"):
    return reshape_(it, to_arr(it, a), (-1,), order)


@table(NP, "squeeze")
def _squeeze(it, a, axis=None):
    return squeeze_(it, to_arr(it, a), axis)


@table(NP, "expand_dims")
def _expand(it, a, axis):
    return expand_dims(it, to_arr(it, a), axis)


@table(NP, "atleast_1d")
def _al1(it, a):
    a = to_arr(it, a)
    return a if a.ndim else expand_dims(it, a, 0)


@table(NP, "atleast_2d")
def _al2(it, a):
    a = to_arr(it, a)
    while a.ndim < 2:
        a = expand_dims(it, a, 0)
    return a


@table(NP, "broadcast_to")
def _bto(it, a, shape):
    a = to_arr(it, a)
    z = Arr(full_t(shape_of(it, shape), 1), a.dt)
    r = ew(it, "Mult", a, z)
    r.dt = a.dt
    return r


@table(NP, "tile")
def _tile(it, a, reps):
    return tile_(it, to_arr(it, a), reps)


@table(NP, "repeat")
def _repeat(it, a, n, axis=None):
    return repeat_(it, to_arr(it, a), n, axis)


def seq_arrays(it, v):
    xs = iter_maybe(it, v)
    return None if xs is None else [to_arr(it, x) for x in xs]


@table(NP, "concatenate")
def _concat(it, v, axis=0):
    xs = seq_arrays(it, v)
    if xs is None:
        return concat_sym(it, v, axis)
    return concat(it, xs, axis)


@table(NP, "hstack")
def _hstack(it, v):
    xs = seq_arrays(it, v)
    if xs is None:
        it.unsupported("hstack of symbolic length")
    xs = [x if x.ndim else expand_dims(it, x, 0) for x in xs]
    return concat(it, xs, 0 if xs[0].ndim == 1 else 1)


def split_(it, v, sections, axis):
    v = to_arr(it, v)
    ax = axis + v.ndim if axis < 0 else axis
    if not 0 <= ax < v.ndim:
        it.raise_("ValueError", "array split does not result in an equal division")
    tot = v.shape[ax]
    full = lambda a, b: it.getitem(v, (slice(None, None, None),) * ax + (slice(a, b, None),))
    if isinstance(sections, (list, tuple)):
        cuts = list(sections)
        return [full(a, b) for a, b in zip([None] + cuts, cuts + [None])]
    k = dim(it, sections).const()
    if k is None or k < 1 or k > 64:
        it.unsupported("split into %r sections" % (sections,))
    rem = npm.mod_t(tf.scalar(tot), tf.scalar(R.const(k)))
    r = tf._is_scalar_const(rem)
    if r is None or r.const() is None:
        it.unsupported("split of a dimension that may not divide")
    if r.const() != 0:
        it.raise_("ValueError", "array split does not result in an equal division")
    w = R.div(tot, R.const(k))
    at = lambda i: npm.num(R.mul(w, R.const(i)))
    return [full(at(i), at(i + 1)) for i in range(int(k))]


@table(NP, "split")
def _split(it, ary, indices_or_sections, axis=0):
    return split_(it, ary, indices_or_sections, axis)


@table(NP, "hsplit")
def _hsplit(it, ary, indices_or_sections):
    return split_(it, ary, indices_or_sections, 1 if to_arr(it, ary).ndim > 1 else 0)


@table(NP, "vsplit")
def _vsplit(it, ary, indices_or_sections):
    return split_(it, ary, indices_or_sections, 0)


@table(NP, "flip")
def _flip(it, m, axis=None):
    v = to_arr(it, m)
    ax = range(v.ndim) if axis is None else [x % v.ndim for x in (axis if isinstance(axis, (tuple, list)) else [axis])]
    return it.getitem(v, tuple(slice(None, None, -1) if i in ax else slice(None, None, None) for i in range(v.ndim)))


@table(NP, "fliplr")
def _fliplr(it, m):
    return _flip(it, m, 1)


@table(NP, "flipud")
def _flipud(it, m):
    return _flip(it, m, 0)


@table(NP, ["vstack", "row_stack"])
def _vstack(it, v):
    if isinstance(v, (Arr, SymList)):
        a = to_arr(it, v)
        if a.ndim == 2:
            return copy_(it, a)
        if a.ndim == 1:
            return copy_(it, expand_dims(it, a, 1))
    xs = seq_arrays(it, v)
    if xs is None:
        it.unsupported("vstack of symbolic length")
    xs = [_al2(it, x) for x in xs]
    return concat(it, xs, 0)


@table(NP, "column_stack")
def _cstack(it, v):
    xs = seq_arrays(it, v)
    xs = [x if x.ndim > 1 else expand_dims(it, x, 1) for x in xs]
    return concat(it, xs, 1)


@table(NP, "dstack")
def _dstack(it, v):
    it.unsupported("dstack")


@table(NP, "stack")
def _stack(it, v, axis=0):
    xs = iter_maybe(it, v)
    if xs is None:
        a = to_arr(it, v)
        if axis == 0:
            return copy_(it, a)
        return _moveaxis(it, a, 0, axis)
    return stack_list(it, xs, axis)


@table(NP, "append")
def _append(it, a, b, axis=None):
    a, b = to_arr(it, a), to_arr(it, b)
    if axis is None:
        a, b, axis = reshape_(it, a, (-1,)), reshape_(it, b, (-1,)), 0
    return concat(it, [a, b], axis)


@table(NP, "block")
def _block(it, v):
    def rec(x):
        if isinstance(x, list):
            return [rec(y) for y in x]
        return to_arr(it, x)

    def depth(x):
        return 1 + depth(x[0]) if isinstance(x, list) else 0
    x = rec(v)
    d = depth(x)

    def go(y, k):
        if not isinstance(y, list):
            while y.ndim < d:
                y = expand_dims(it, y, 0)
            return y
        return concat(it, [go(z, k + 1) for z in y], k - d)
    return copy_(it, go(x, 0))


@table(NP, "diag")
def _diag(it, a, k=0):
    return diag_(it, to_arr(it, a), k)


@table(NP, "diagonal")
def _diagonal(it, a, offset=0, axis1=0, axis2=1):
    if offset:
        it.unsupported("diagonal offset")
    return diagonal_(it, to_arr(it, a), axis1, axis2)


@table(NP, "kron")
def _kron(it, a, b):
    return kron_(it, to_arr(it, a), to_arr(it, b))


@table(NP, "outer")
def _outer(it, a, b):
    a, b = to_arr(it, a), to_arr(it, b)
    if a.ndim != 1:
        a = reshape_(it, a, (-1,))
    if b.ndim != 1:
        b = reshape_(it, b, (-1,))
    return ew(it, "Mult", expand_dims(it, a, 1), expand_dims(it, b, 0))


@table(NP, "inner")
def _inner(it, a, b):
    a, b = to_arr(it, a), to_arr(it, b)
    return dot_(it, a, transpose_(it, b) if b.ndim == 2 else b)


@table(NP, "vdot")
def _vdot(it, a, b):
    a, b = to_arr(it, a), to_arr(it, b)
    return reduce_(it, ew(it, "Mult", conj_(it, a), b), None, False, "sum")


@table(NP, "einsum")
def _einsum(it, spec, *ops, optimize=False):
    if not isinstance(spec, str):
        it.unsupported("einsum without a spec string")
    r = einsum_(it, spec, *[to_arr(it, o) for o in ops])
    l, _, o = spec.replace(" ", "").partition("->")
    if len(ops) == 1 and isinstance(ops[0], Arr) and o and "." not in l and sorted(l) == sorted(o) and len(set(l)) == len(l):
        return transpose_(it, ops[0], tuple(l.index(c) for c in o))
    return r


@table(NP, "tensordot")
def _tdot(it, a, b, axes=2):
    return tensordot_(it, to_arr(it, a), to_arr(it, b), axes)


@table(NP, "dot")
def _dot(it, a, b):
    return dot_(it, to_arr(it, a), to_arr(it, b))


@table(NP, "cov")
def _cov(it, m, y=None, rowvar=True, bias=False, ddof=None):
    m = to_arr(it, m)
    if y is not None:
        it.unsupported("np.cov with two data sets")
    if m.ndim == 1:
        m = expand_dims(it, m, 0)
    if not it.truth(rowvar):
        m = transpose_(it, m)
    if ddof is None:
        ddof = 0 if it.truth(bias) else 1
    n = m.shape[1]
    mu = mean_(it, m, 1, True)
    d = ew(it, "Sub", m, mu)
    s = matmul(it, d, conj_(it, transpose_(it, d)))
    k = R.sub(n, dim(it, ddof))
    if R.is_zero(k) if hasattr(R, "is_zero") else k == R.const(0):
        return mk(it, tf.op_T("no degrees of freedom", [tf.flat(s.t)], squeeze_(it, s).shape), s.dt)   # nan
    r = binop(it, "Div", s, num(k))
    return squeeze_(it, r)


@table(NP, "vander")
def _vander(it, *a, **k):
    it.unsupported("vander")


@table(NP, "iscomplexobj")
def _isc(it, a):
    return iscomplex(it, a)


def iscomplex(it, a):
    if isinstance(a, Arr):
        if a.dt == "?":
            return it.branch_opaque(Opaque("iscomplexobj(#%d)" % a.t.id))
        return a.dt == "c"
    if isinstance(a, complex):
        return True
    if a is None or isinstance(a, (int, float, Fraction, str, dict)):
        return False
    if isinstance(a, (list, tuple, SymList)):
        return to_arr(it, a).dt == "c"
    if isinstance(a, Opaque) and "dt" in a.attrs:
        return a.attrs["dt"] == "c"
    it.unsupported("iscomplexobj(%s)" % typename(a))


@table(NP, "isrealobj")
def _isr(it, a):
    return not iscomplex(it, a)


@table(NP, "iscomplex")
def _iscx(it, a):
    return compare(it, "NotEq", imag_(it, a), 0)


@table(NP, "isreal")
def _isrl(it, a):
    return compare(it, "Eq", imag_(it, a), 0)


@table(NP, "isscalar")
def _isscalar(it, a):
    return is_num(a) or isinstance(a, str) or (isinstance(a, Arr) and a.ndim == 0 and a.meta != "0d")


@table(NP, "ndim")
def _ndim(it, a):
    return to_arr(it, a).ndim


@table(NP, "shape")
def _shape(it, a):
    return arr_shape(to_arr(it, a))


@table(NP, "size")
def _size(it, a, axis=None):
    a = to_arr(it, a)
    return num(size_of(a.t)) if axis is None else num(a.shape[axis])


@table(NP, "result_type")
def _rt(it, *args):
    dt = "b"
    for a in args:
        if type(a).__name__ == "_Star":
            a = a.v
        if isinstance(a, SymList):
            a = a.elem
        d = as_dt(a)
        k = d.kind if d is not None else to_arr(it, a).dt
        dt = promote(dt, k)
    return DT(dt)


@table(NP, ["promote_types", "find_common_type"])
def _pt(it, a, b):
    return DT(promote(as_dt(a).kind, as_dt(b).kind))


@table(NP, "dtype")
def _dtype(it, a):
    return as_dt(a)


@table(NP, "issubdtype")
def _issub(it, a, b):
    d = as_dt(a)
    n = b.attrs.get("type") if isinstance(b, Opaque) else None
    m = {"complexfloating": "c", "floating": "f", "integer": "i", "complex": "c", "float": "f", "int": "i",
         "complex128": "c", "float64": "f"}
    if n == "number":
        return d.kind in "ifc"
    if n in m:
        return d.kind == m[n]
    it.unsupported("issubdtype")


@table(NP, "allclose")
def _allclose(it, a, b, rtol=None, atol=None, equal_nan=False):
    a, b = to_arr(it, a), to_arr(it, b)
    ta, tb = broadcast(it, [a.t, b.t])
    if ta is tb:
        return True
    d = ew(it, "Sub", a, b)
    # an exact idealisation: closeness is equality
    r = abs_(it, d)
    s = reduce_(it, r, None, False, "max") if r.ndim else r
    it.event("allclose", args=(a, b))
    return compare(it, "LtE", s, 0)


@table(NP, ["array_equal", "array_equiv"])
def _aeq(it, a, b):
    a, b = to_arr(it, a), to_arr(it, b)
    if a.shape != b.shape:
        return False
    return _allclose(it, a, b)


@table(NP, "isclose")
def _isclose(it, a, b, rtol=None, atol=None):
    return compare(it, "Eq", a, b)


@table(NP, "triu_indices")
def _triu_i(it, n, k=0, m=None):
    return tri_indices(it, "triu", n, k)


@table(NP, "tril_indices")
def _tril_i(it, n, k=0, m=None):
    return tri_indices(it, "tril", n, k)


@table(NP, "diag_indices")
def _diag_i(it, n, ndim=2):
    return tri_indices(it, "diag", n, 0)


@table(NP, ["triu", "tril"])
def _triu(it, a, k=0):
    it.unsupported("triu/tril")


@table(NP, "fill_diagonal")
def _filld(it, a, v):
    n = a.shape[0]
    ii = tri_indices(it, "diag", num(n), 0)
    arr_setitem(it, a, ii, v)


@table(NP, "take")
def _take(it, a, idx, axis=None):
    return take_(it, to_arr(it, a), idx, axis)


def take_(it, a, idx, axis=None):
    if axis is None:
        a = reshape_(it, a, (-1,))
        return arr_getitem(it, a, idx)
    key = [slice(None)] * a.ndim
    key[axis] = idx
    return arr_getitem(it, a, tuple(key))


@table(NP, "errstate")
def _errstate(it, **k):
    return Opaque("errstate", attrs={"ctx": True})


@table(NP, ["seterr", "set_printoptions"])
def _seterr(it, *a, **k):
    it.event("globalwrite", name="numpy error state", module="numpy")


@table(NP, "ix_")
def _ix(it, *a):
    it.unsupported("np.ix_")


@table(NP, "vectorize")
def _vectorize(it, f, **k):
    it.unsupported("np.vectorize")


@table(NP, "apply_along_axis")
def _aaa(it, f, axis, a, *rest, **k):
    it.unsupported("np.apply_along_axis")


@table(NP, "ndindex")
def _ndindex(it, *s):
    it.unsupported("np.ndindex")


@table(NP, "indices")
def _indices(it, *s):
    it.unsupported("np.indices")


@table(NP, "meshgrid")
def _meshgrid(it, *s, **k):
    it.unsupported("np.meshgrid")


# ---------------------------------------------------------------- numpy.linalg
@table(LA, "inv")
def _inv(it, a, check_finite=True, overwrite_a=False):
    return inv_(it, to_arr(it, a))


@table(LA, "pinv")
def _pinv(it, a, rcond=None, hermitian=False, check_finite=True):
    return inv_(it, to_arr(it, a))


@table(LA, "solve")
def _solve(it, a, b, assume_a="gen", **k):
    a, b = to_arr(it, a), to_arr(it, b)
    x = inv_(it, a)
    return matmul(it, x, b)


@table(LA, "det")
def _det(it, a):
    a = to_arr(it, a)
    r = mk(it, need_flat_det(it, a), "c" if a.dt == "c" else "f")
    r.tr = a.tr
    return r


def need_flat_det(it, a):
    need_square(it, a.t, "det")
    t = a.t
    if a.t.n != a.t.rank:
        # composite matrix axes: only a Kronecker structure is understood
        kp = kron_parts(t)
        if kp is None:
            it.unsupported("det of a matrix with composite axes")
        s, facs = kp
        N = size_label(t)
        acc = tf.tpow(s, N)
        for f in facs:
            acc = tf.mul_T(acc, tf.tpow(tf.det_T(f), R.div(N, f.dims[-1])))
        return acc
    return tf.det_T(t)


def size_label(t):
    r = F1
    for l in t.axes()[-1]:
        r = R.mul(r, t.dims[l])
    return r


@table(LA, "slogdet")
def _slogdet(it, a):
    a = to_arr(it, a)
    d = _det(it, a)
    if tf.nonneg(d.t) or psd_like(a.t):
        return (ew(it, "Add", ew(it, "Mult", d, 0), 1), cum(it, "log", [Arr(d.t, "f")]))
    ad = abs_(it, d)
    return (ew(it, "Div", d, ad), cum(it, "log", [ad]))


def psd_like(t):
    try:
        return tf.psd(t)
    except Exception:
        return False


def eig_pair(it, a, what):
    a = to_arr(it, a)
    need_square(it, a.t, what)
    herm_input(it, a.t, what)
    d, q = tf.eigh_T(a.t)
    D, Q = mk(it, d, "f"), mk(it, q, a.dt)
    D.tr = Q.tr = a.tr
    return D, Q


@table(LA, "eigh")
def _eigh(it, a, UPLO="L", check_finite=True, **k):
    if k:
        it.unsupported("eigh options")
    return eig_pair(it, a, "eigh")


@table(LA, "eigvalsh")
def _eigvalsh(it, a, UPLO="L", check_finite=True):
    return eig_pair(it, a, "eigvalsh")[0]


@table(LA, ["eig", "eigvals", "svd", "lstsq", "matrix_rank", "cond", "eigvals_banded"])
def _eig(it, a, *rest, **k):
    it.unsupported("linalg function not modelled")


@table(LA, "cholesky")
def _chol(it, a, lower=None, check_finite=True):
    a = to_arr(it, a)
    need_square(it, a.t, "cholesky")
    herm_input(it, a.t, "cholesky")
    r = mk(it, tf.cholesky_T(a.t), a.dt)
    r.tr = a.tr
    return r


@table(LA, "qr")
def _qr(it, a, mode="reduced"):
    a = to_arr(it, a)
    need_square(it, a.t, "qr")
    f = tf.flat(a.t)
    if tf.outer_labels(f):
        it.unsupported("qr with outer labels")
    dims = f.dims
    re = tf.is_real(f)
    q = tf.op_T("qr.q", [f], dims, unitary=True, inv=True, real=re)
    r = tf.op_T("qr.r", [f], dims, real=re)
    return (mk(it, q, a.dt), mk(it, r, a.dt))


@table(LA, "norm")
def _norm(it, a, ord=None, axis=None, keepdims=False, check_finite=True):
    return norm_(it, to_arr(it, a), ord, axis, keepdims)


@table(LA, "matrix_power")
def _mpower(it, a, n):
    a = to_arr(it, a)
    if not isinstance(n, int):
        it.unsupported("matrix_power")
    if n == 0:
        return _eye(it, num(a.shape[-1]))
    b = a if n > 0 else inv_(it, a)
    r = b
    for _ in range(abs(n) - 1):
        r = matmul(it, r, b)
    return r


@table(LA, "multi_dot")
def _mdot(it, v):
    xs = iter_concrete(it, v)
    r = xs[0]
    for x in xs[1:]:
        r = matmul(it, r, x)
    return r


# ---------------------------------------------------------------- scipy.linalg
for _k in ("inv", "pinv", "solve", "det", "norm", "eigh", "eigvalsh", "qr", "eig", "svd"):
    SLA[_k] = LA[_k]


@table(SLA, "cholesky")
def _schol(it, a, lower=False, check_finite=True, overwrite_a=False):
    r = _chol(it, a)
    if not it.truth(lower):
        r = conj_(it, transpose_(it, r))
    return r


@table(SLA, "pinvh")
def _pinvh(it, a, atol=None, rtol=None, lower=True, check_finite=True, return_rank=False, cond=None, rcond=None):
    a = to_arr(it, a)
    need_square(it, a.t, "pinvh")
    herm_input(it, a.t, "pinvh")
    cut = [x for x in (atol, rtol, cond, rcond) if x is not None]
    if cut and not it.truth(return_rank):
        # directions under a chosen threshold are dropped: not the inverse in general
        return mk(it, tf.op_T("pinvh", [tf.flat(a.t)] + [tf.flat(to_arr(it, x).t) for x in cut], a.shape, real=tf.is_real(a.t) or False,
                              herm=True, psd=True), promote(a.dt, "f"))
    if cut or it.truth(return_rank):
        raise tf.Unsupported("pinvh with a rank")
    return inv_(it, a)


@table(SLA, "sqrtm")
def _ssqrtm(it, a, disp=True, blocksize=64):
    return mpow_(it, to_arr(it, a), R.const(Fraction(1, 2)), "sqrtm")


@table(SLA, "fractional_matrix_power")
def _sfmp(it, a, t):
    return mpow_(it, to_arr(it, a), dim(it, t) if not isinstance(t, Fraction) else R.const(t), "fmp")


@table(SLA, "expm")
def _sexpm(it, a):
    return mfun_(it, to_arr(it, a), "exp", "expm")


@table(SLA, "logm")
def _slogm(it, a, disp=True):
    return mfun_(it, to_arr(it, a), "log", "logm")


@table(SLA, "svdvals")
def _svdvals(it, a, check_finite=True, overwrite_a=False):
    a = to_arr(it, a)
    need_square(it, a.t, "svdvals")
    f = tf.flat(a.t)
    return mk(it, tf.op_T("svdvals", [f], (f.dims[-1],), real=True, pos=True), "f")


@table(SLA, "toeplitz")
def _toeplitz(it, c, r=None):
    c = to_arr(it, c)
    if c.ndim != 1:
        it.unsupported("toeplitz of a matrix")
    if r is not None:
        it.unsupported("toeplitz with a row")
    n = c.shape[0]
    f = tf.flat(c.t)
    return mk(it, tf.op_T("toeplitz", [f], (n, n), herm=True, real=tf.is_real(f)), c.dt)


@table(SLA, "block_diag")
def _bd(it, *a):
    it.unsupported("block_diag")


@table(SLA, ["solve_triangular", "cho_solve", "cho_factor", "lu", "schur"])
def _snm(it, *a, **k):
    it.unsupported("scipy.linalg function not modelled")


# ---------------------------------------------------------------- numpy.random
def rng_leaf(it, fn, dims, dt="f", args=(), **flags):
    node = tf.leaf(it.path.fresh_name("$%s" % fn), tuple(dims), real=dt != "c", **flags)
    a = mk(it, tf.from_node(node), dt)
    if not dims:
        a.py = True
    it.event("rng", name=fn, shape=tuple(dims), leaf=node, args=args)
    return a


@table(RND, "randn")
def _randn(it, *s):
    return rng_leaf(it, "randn", shape_of(it, list(s)))


@table(RND, ["standard_normal"])
def _stdn(it, size=None):
    return rng_leaf(it, "randn", shape_of(it, size) if size is not None else ())


@table(RND, "rand")
def _rand(it, *s):
    return rng_leaf(it, "rand", shape_of(it, list(s)), pos=True)


@table(RND, ["random", "random_sample"])
def _random(it, size=None):
    return rng_leaf(it, "rand", shape_of(it, size) if size is not None else (), pos=True)


@table(RND, "normal")
def _normal(it, loc=0, scale=1, size=None):
    z = rng_leaf(it, "randn", shape_of(it, size) if size is not None else ())
    return binop(it, "Add", loc, binop(it, "Mult", scale, z))


@table(RND, "uniform")
def _uniform(it, low=0, high=1, size=None):
    z = rng_leaf(it, "rand", shape_of(it, size) if size is not None else (), pos=True)
    return binop(it, "Add", low, binop(it, "Mult", binop(it, "Sub", high, low), z))


@table(RND, "gamma")
def _gamma(it, shape, scale=1, size=None):
    d = shape_of(it, size) if size is not None else ()
    sh = to_arr(it, shape)
    if sh.ndim:
        it.unsupported("gamma with an array shape")
    node = tf.op_T(it.path.fresh_name("$gamma"), [tf.flat(sh.t)], tuple(d), real=True, pos=True)
    g = mk(it, node, "f")
    it.event("rng", name="gamma", shape=d, leaf=node, args=(shape, scale))
    return binop(it, "Mult", g, scale)


@table(RND, "seed")
def _seed(it, s=None):
    it.event("rngstate", op="seed", arg=s)


@table(RND, "get_state")
def _get_state(it, legacy=True):
    o = Opaque("rngstate#%d" % it.path.next_serial())
    it.event("rngstate", op="get", arg=None, res=o)
    o.attrs["truth"] = True
    return o


@table(RND, "set_state")
def _set_state(it, s):
    it.event("rngstate", op="set", arg=s)


@table(RND, ["randint", "choice", "permutation", "shuffle", "chisquare", "exponential", "multivariate_normal",
             "standard_gamma", "standard_t", "beta", "lognormal", "default_rng", "RandomState"])
def _rndother(it, *a, **k):
    it.unsupported("random generator function not modelled")


# ================================================================ modules
def external_module(it, name):
    m = Module(name, {})
    m.external = True
    return m


def module_attr(it, mod, name):
    f = _MODS.get(mod.name)
    if f is not None:
        v = f(it, mod, name)
        if v is not UNDEF:
            return v
    if mod.name in OPEN_MODULES:
        return Opaque("%s.%s" % (mod.name, name))
    sub = mod.name + "." + name
    if sub in _MODS or sub.split(".")[0] in ("robuststats",):
        return it.module(sub)
    return Opaque(sub)


OPEN_MODULES = {"tqdm", "time", "os", "sys"}


def mod(*names):
    def deco(f):
        for n in names:
            _MODS[n] = f
        return f
    return deco


NPCONST = {
    "newaxis": None, "inf": INF, "Inf": INF, "nan": float("nan"), "float": "float", "complex": "complex", "int": "int",
    "bool": "bool", "str": "str"}

TRACE_BACKENDS = {"autograd.numpy", "autograd.numpy.linalg"}


def traced(v):
    if isinstance(v, Arr):
        return v.tr
    if isinstance(v, (list, tuple)):
        return any(traced(x) for x in v)
    return False


def wrap_native(nat, modname, name):
    """record calls of numpy functions on traced values (autograd consistency)"""
    def run(it, args, kw):
        tr = any(traced(a) for a in args) or any(traced(a) for a in kw.values())
        if tr or modname.startswith("autograd"):
            it.event("np", mod=modname, name=name, traced=tr)
        r = nat.fn(it, args, kw)
        if tr:
            for x in ([r] if isinstance(r, Arr) else r if isinstance(r, (list, tuple)) else []):
                if isinstance(x, Arr):
                    x.tr = True
        return r
    n = Native(name, run, modname)
    n.orig = nat
    return n


_WRAP = {}


def fetch(tab, modname, name):
    nat = tab.get(name)
    if nat is None:
        return UNDEF
    k = (modname, name)
    w = _WRAP.get(k)
    if w is None:
        w = _WRAP[k] = wrap_native(nat, modname, name)
    return w


@mod("numpy", "autograd.numpy")
def _np_attr(it, m, name):
    if name in ("newaxis", "inf", "Inf", "nan"):
        return NPCONST[name]
    if name in ("float", "complex", "int", "bool", "str"):
        return T(name)
    if name == "pi":
        return Arr(tf.from_node(tf.leaf("$pi", (), real=True, pos=True, inv=True)), "f", py=True)
    if name == "e":
        return cum(it, "exp", [1])
    if name in ("float64", "complex128", "int64", "bool_", "float32", "complex64", "int32", "ndarray", "memmap",
                "generic", "number", "floating", "integer", "complexfloating"):
        return T(name)
    if name == "double":
        return T("float64")
    if name in ("linalg", "random"):
        return it.module(m.name + "." + name)
    return fetch(NP, m.name, name)


@mod("numpy.linalg", "autograd.numpy.linalg")
def _la_attr(it, m, name):
    if name == "LinAlgError":
        return linalg_error()
    return fetch(LA, m.name, name)


_LE = []


def linalg_error():
    if not _LE:
        c = ClassObj("LinAlgError", [exc_class("Exception")], {}, None)
        c.is_exc = True
        _LE.append(c)
    return _LE[0]


@mod("scipy.linalg")
def _sla_attr(it, m, name):
    if name == "LinAlgError":
        return linalg_error()
    return fetch(SLA, m.name, name)


@mod("numpy.random", "autograd.numpy.random")
def _rnd_attr(it, m, name):
    return fetch(RND, m.name, name)


@mod("scipy")
def _scipy_attr(it, m, name):
    if name in ("linalg", "stats", "special"):
        return it.module("scipy." + name)
    return UNDEF


SPECIAL = {}
for _nm in ("gamma", "gammaln", "loggamma", "digamma", "psi", "gammainc", "erf"):
    def _mkspec(nm):
        def f(it, *a):
            return cum(it, nm, list(a))
        return f
    table(SPECIAL, _nm)(_mkspec(_nm))


@mod("scipy.special")
def _special(it, m, name):
    return fetch(SPECIAL, m.name, name)


class Dist:
    pass


def chi2_native(nm):
    def run(it, args, kw):
        names = {"cdf": ["x", "df"], "ppf": ["q", "df"], "sf": ["x", "df"], "pdf": ["x", "df"],
                 "isf": ["q", "df"], "logpdf": ["x", "df"]}[nm]
        vals = dict(zip(names, args))
        vals.update(kw)
        if set(vals) - {"x", "q", "df"}:
            it.unsupported("chi2.%s with %s" % (nm, sorted(vals)))
        xs = [to_arr(it, vals[names[0]]), to_arr(it, vals["df"])]
        if nm == "sf":
            return binop(it, "Sub", 1, cum(it, "chi2.cdf", xs))
        if nm == "isf":
            xs[0] = to_arr(it, binop(it, "Sub", 1, xs[0]))
            return cum(it, "chi2.ppf", xs)
        return cum(it, "chi2." + nm, xs)
    return Native("chi2." + nm, run)


def rvs_leaf(nm, unitary=False, real=True):
    def run(it, args, kw):
        vals = dict(zip(["dim", "size", "random_state"], args))
        vals.update(kw)
        n = dim(it, vals["dim"])
        if vals.get("size", 1) not in (1, None):
            it.unsupported("%s.rvs with size" % nm)
        return rng_leaf(it, nm, (n, n), "f" if real else "c", unitary=True, inv=True)
    return Native(nm + ".rvs", run)


@mod("scipy.stats")
def _stats(it, m, name):
    if name == "chi2":
        return Opaque("chi2", attrs={k: chi2_native(k) for k in ("cdf", "ppf", "sf", "pdf", "isf", "logpdf")})
    if name == "ortho_group":
        return Opaque("ortho_group", attrs={"rvs": rvs_leaf("ortho_group")})
    if name == "unitary_group":
        return Opaque("unitary_group", attrs={"rvs": rvs_leaf("unitary_group", real=False)})
    if name == "lognorm":
        def run(it, args, kw):
            vals = dict(zip(["s", "loc", "scale", "size", "random_state"], args))
            vals.update(kw)
            z = rng_leaf(it, "randn", shape_of(it, vals["size"]) if vals.get("size") is not None else ())
            x = cum(it, "exp", [binop(it, "Mult", vals["s"], z)])
            return binop(it, "Add", vals.get("loc", 0), binop(it, "Mult", vals.get("scale", 1), x))
        return Opaque("lognorm", attrs={"rvs": Native("lognorm.rvs", run)})
    if name in ("multivariate_t", "multivariate_normal"):
        return scipy_object(name)
    if name == "_multivariate":
        return it.module("scipy.stats._multivariate")
    return UNDEF


@mod("scipy.stats._multivariate")
def _mv(it, m, name):
    b = BASES.get("scipy." + name)
    if b is None and name.startswith("multivariate_"):
        b = BASES["scipy." + name] = Opaque("scipy." + name, attrs={"base": "scipy", "cls": name})
    return b if b is not None else UNDEF


BASES = {}


def base(name, **kw):
    b = BASES.get(name)
    if b is None:
        b = BASES[name] = Opaque(name, attrs=dict(kw))
    return b


@mod("sklearn.base")
def _skbase(it, m, name):
    if name in ("BaseEstimator", "TransformerMixin", "ClassifierMixin"):
        return base("sklearn." + name)
    if name == "clone":
        return Native("clone", lambda it, a, k: clone_(it, a[0]))
    if name in ("_fit_context",):
        def deco(it, a, k):
            return Native("deco", lambda it2, a2, k2: a2[0])
        return Native(name, deco)
    return Opaque("sklearn." + name)


def check_array(it, args, kw):
    x = args[0]
    a = to_arr(it, x)
    it.event("check_array", arr=a, kw=kw)
    if a.dt == "c":
        it.raise_("ValueError", "Complex data not supported")
    nd2 = kw.get("ensure_2d", True)
    if nd2 is True and a.ndim < 2:
        it.raise_("ValueError", "Expected 2D array")
    if a.ndim >= 3 and not kw.get("allow_nd", False):
        it.raise_("ValueError", "Found array with dim %d" % a.ndim)
    if kw.get("force_all_finite", True) is True:
        it.event("finite_check", arr=a)
    if isinstance(x, Arr) and a.dt == "f":
        if kw.get("copy"):
            return copy_(it, a)
        return x
    if kw.get("dtype", "numeric") == "numeric" and a.dt in "ifb":
        return x if isinstance(x, Arr) else a
    return a


@mod("sklearn.utils.validation", "sklearn.utils")
def _skval(it, m, name):
    if name == "check_array":
        return Native("check_array", lambda it, a, k: check_array(it, a, k))
    if name == "_deprecate_positional_args":
        def run(it, a, k):
            f = a[0] if a else None
            if f is None:
                return Native("deco", lambda it2, a2, k2: run(it2, a2, {}))
            if isinstance(f, Func):
                f.extra_pos = True
            return f
        return Native(name, run)
    if name == "check_is_fitted":
        return Native(name, lambda it, a, k: it.event("check_fitted") and None)
    return Opaque("sklearn." + name)


@mod("sklearn.utils.extmath")
def _skext(it, m, name):
    if name == "fast_logdet":
        def run(it, a, k):
            s, ld = _slogdet(it, a[0])
            return ld
        return Native(name, run)
    return Opaque("sklearn." + name)


@mod("sklearn.covariance")
def _skcov(it, m, name):
    return base("sklearn." + name)


@mod("sklearn", "sklearn._config")
def _sk(it, m, name):
    if name in ("config_context", "set_config"):
        return Native(name, lambda it2, a, k: Opaque("sklearn.config"))
    return UNDEF


@mod("sklearn.metrics.pairwise", "sklearn.metrics")
def _skpair(it, m, name):
    if name == "pairwise_distances":
        def run(it, a, k):
            vals = dict(zip(["X", "Y", "metric"], a))
            vals.update(k)
            if vals.get("metric") != "mahalanobis" or vals.get("Y") is None or "VI" not in vals:
                it.unsupported("pairwise_distances(metric=%r)" % (vals.get("metric"),))
            X, Y, VI = [to_arr(it, vals[q]) for q in ("X", "Y", "VI")]
            if "c" in (X.dt, Y.dt):
                it.raise_("ValueError", "Complex data not supported")
            sl = slice(None)
            D = binop(it, "Sub", getitem(it, X, (sl, None, sl)), getitem(it, Y, (None, sl, sl)))
            return cum(it, "sqrt", [einsum_(it, "kji,il,kjl->kj", D, VI, D)])
        return Native(name, run)
    return Opaque("sklearn." + name)


# ---- pymanopt
@mod("pymanopt")
def _pm(it, m, name):
    if name == "Problem":
        def run(it, a, k):
            vals = dict(zip(["manifold", "cost", "egrad", "ehess", "grad", "hess", "arg", "precon", "verbosity"], a))
            vals.update(k)
            o = Opaque("Problem", attrs={"problem": vals, "truth": True, **vals})
            it.event("problem", **{"vals": vals})
            return o
        return Native("Problem", run)
    if name in ("manifolds", "tools", "solvers", "function"):
        return it.module("pymanopt." + name)
    return UNDEF


@mod("pymanopt.function")
def _pmf(it, m, name):
    if name in ("Callable", "Autograd"):
        return Native(name, lambda it, a, k: a[0])
    return UNDEF


@mod("pymanopt.solvers")
def _pms(it, m, name):
    def mksolver(it, a, k):
        s = Opaque(name, attrs={"truth": True})
        s.attrs["solve"] = Native("solve", lambda it2, a2, k2: solve(it2, name, s, a2, k2))
        s.attrs["opts"] = (a, k)
        return s
    return Native(name, mksolver)


def solve(it, name, s, a, k):
    vals = dict(zip(["problem", "x", "reuselinesearch"], a))
    vals.update(k)
    x = vals.get("x")
    n = it.path.next_serial()

    def out(v, i):
        if isinstance(v, (tuple, list)):
            return like_seq(v, (out(y, "%s.%d" % (i, j)) for j, y in enumerate(v)))
        if v is None:
            return Opaque("solution")
        v = to_arr(it, v)
        nm = it.path.fresh_name("$solve" + str(i))
        t = tf.from_node(tf.leaf(nm, v.t.dims, herm=True, psd=True, inv=True, real=v.dt != "c"))
        return mk(it, tf.with_sizes(t, v.t.sizes), v.dt)
    r = out(x, "")
    if x is None:
        man = vals["problem"].attrs.get("manifold")
        if isinstance(man, Inst):
            ev = len(it.path.events)
            r = out(it.call(it.getattr(man, "rand"), [], {}), "")
            del it.path.events[ev:]
        elif isinstance(man, Opaque) and "made" in man.attrs and len(man.attrs["made"][1]) == 1:
            n = man.attrs["made"][1][0]
            r = out(_eye(it, n), "")
    it.event("solve", solver=name, problem=vals.get("problem"), x=x, result=r, opts=s.attrs["opts"])
    return r


@mod("pymanopt.manifolds", "pymanopt.manifolds.psd")
def _pmm(it, m, name):
    if name == "Product":
        return it.import_from("pymanopt.manifolds.product", "Product")
    if name == "EuclideanEmbeddedSubmanifold":
        return it.import_from("pymanopt.manifolds.manifold", name)
    return base("pymanopt." + name)


@mod("pymanopt.tools")
def _pmt(it, m, name):
    return UNDEF


@mod("autograd")
def _ag(it, m, name):
    if name in ("grad", "elementwise_grad", "egrad"):
        def run(it, a, k):
            vals = dict(zip(["fun", "argnum"], a))
            vals.update(k)
            o = Opaque("autograd.%s" % name, attrs={"truth": True, "fun": vals["fun"], "argnum": vals.get("argnum", 0)})
            o.call = lambda it2, a2, k2: autograd_call(it2, o, a2, k2)
            it.event("autograd", grad=o)
            return o
        return Native(name, run)
    if name == "numpy":
        return it.module("autograd.numpy")
    return UNDEF


def autograd_call(it, o, a, k):
    argnum = o.attrs["argnum"]
    if isinstance(argnum, (list, tuple)):
        return tuple(autograd_call(it, Opaque(o.name, attrs={**o.attrs, "argnum": i}), a, k) for i in argnum)
    x = to_arr(it, a[argnum])
    nm = it.path.fresh_name("$autograd")
    t = tf.from_node(tf.leaf(nm, x.t.dims, real=x.dt != "c"))
    r = mk(it, tf.with_sizes(t, x.t.sizes), x.dt)
    it.event("autograd_call", grad=o, args=a, kw=k, result=r)
    return r


# ---- misc
def logger(name):
    def lvl(l):
        def run(it, a, k):
            it.event("log", level=l, msg=a[0] if a else "")
        return Native("logging." + l, run)
    return {l: lvl(l) for l in ("debug", "info", "warning", "error", "critical", "exception", "warn", "log")}


_LOG = logger("logging")


@mod("logging")
def _logging(it, m, name):
    if name in _LOG:
        return _LOG[name]
    if name == "getLogger":
        return Native(name, lambda it, a, k: Opaque("logger", attrs={**_LOG, "truth": True}))
    if name in ("INFO", "DEBUG", "WARNING", "ERROR"):
        return {"INFO": 20, "DEBUG": 10, "WARNING": 30, "ERROR": 40}[name]
    return Opaque("logging." + name)


@mod("warnings")
def _warnings(it, m, name):
    if name == "warn":
        def run(it, a, k):
            it.event("log", level="warn", msg=a[0] if a else "")
        return Native(name, run)
    if name == "catch_warnings":
        return Native(name, lambda it, a, k: Opaque("catch_warnings", attrs={"ctx": True}))
    if name in ("simplefilter", "filterwarnings"):
        return Native(name, lambda it, a, k: it.event("globalwrite", name="warnings filter", module="warnings") and None)
    return Opaque("warnings." + name)


def pbar(it, name):
    o = Opaque("progress bar", attrs={"truth": True, "open": True})
    return o


@mod("tqdm", "tqdm.auto", "robuststats.utils.verbose")
def _tqdm(it, m, name):
    if name in ("tqdm", "logging_tqdm", "trange", "tqdm_notebook"):
        def run(it, a, k):
            it.event("log", level="tqdm")
            src = a[0] if a else k.get("iterable")
            if src is not None:
                return src
            return pbar(it, name)
        return Native(name, run)
    return Opaque("tqdm." + name)


@mod("copy")
def _copymod(it, m, name):
    if name == "deepcopy":
        return Native(name, lambda it, a, k: deepcopy_(it, a[0]))
    if name == "copy":
        return Native(name, lambda it, a, k: shallow(it, a[0]))
    return UNDEF


def shallow(it, v):
    if isinstance(v, Arr):
        return copy_(it, v)
    if isinstance(v, Inst):
        o = Inst(v.cls)
        o.attrs = dict(v.attrs)
        it.register(o)
        return o
    if isinstance(v, (list, dict, set)):
        return like_seq(v, v)
    return v


def clone_(it, v, **kw):
    """sklearn.base.clone: a new object from the (copied) parameters"""
    if isinstance(v, (list, tuple)):
        return like_seq(v, (clone_(it, x) for x in v))
    if not isinstance(v, Inst):
        return deepcopy_(it, v)
    ps = it.call(it.getattr(v, "get_params"), [], {})
    new = {k: (clone_(it, x) if isinstance(x, Inst) and "get_params" in SK_ATTRS and is_estimator(x) else deepcopy_(it, x))
           for k, x in ps.items()}
    r = it.call(v.cls, [], new)
    it.event("clone", src=v, dst=r)
    return r


def is_estimator(v):
    return any(isinstance(b, Opaque) and b.name == "sklearn.BaseEstimator" for b in v.cls.mro())


def deepcopy_(it, v, memo=None):
    memo = {} if memo is None else memo
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, Arr):
        r = copy_(it, v) if not v.py else v
    elif isinstance(v, Inst):
        r = Inst(v.cls)
        r.tag = v.tag
        memo[id(v)] = r
        it.register(r)
        it.event("deepcopy", src=v, dst=r)
        for k in ("call", "getattr_hook", "types"):
            if getattr(v, k, None) is not None:
                setattr(r, k, getattr(v, k))
        for k, x in v.attrs.items():
            r.attrs[k] = deepcopy_(it, x, memo)
        return r
    elif isinstance(v, (list, tuple)):
        r = like_seq(v, (deepcopy_(it, x, memo) for x in v))
    elif isinstance(v, dict):
        r = {k: deepcopy_(it, x, memo) for k, x in v.items()}
    elif isinstance(v, SymList):
        r = SymList(v.n, v.label, deepcopy_(it, v.elem, memo))
    elif isinstance(v, Bound):
        r = Bound(v.func, deepcopy_(it, v.self, memo))
    else:
        r = v
    memo[id(v)] = r
    return r


@mod("contextlib")
def _ctx(it, m, name):
    if name == "contextmanager":
        def run(it, a, k):
            a[0].ctxmgr = True
            return a[0]
        return Native(name, run)
    return Opaque("contextlib." + name)


@mod("functools")
def _ft(it, m, name):
    if name == "wraps":
        return Native(name, lambda it, a, k: Native("wrapper", lambda it2, a2, k2: a2[0]))
    if name == "partial":
        def run(it, a, k):
            f, a0, k0 = a[0], list(a[1:]), dict(k)
            r = Native("partial", lambda it2, a2, k2: it2.call(f, a0 + list(a2), {**k0, **k2}))
            r.parts = [f] + a0 + list(k0.values())
            return r
        return Native(name, run)
    if name == "reduce":
        def run(it, a, k):
            xs = iter_concrete(it, a[1])
            if len(a) > 2:
                xs = [a[2]] + xs
            acc = xs[0]
            for x in xs[1:]:
                acc = it.call(a[0], [acc, x], {})
            return acc
        return Native(name, run)
    if name in ("lru_cache", "cache"):
        it.unsupported("functools.%s" % name)
    return UNDEF


@mod("math")
def _math(it, m, name):
    mp = {"sqrt": "sqrt", "exp": "exp", "log": "log", "floor": "floor", "ceil": "ceil", "fabs": "abs", "pow": "power"}
    if name in mp:
        nat = NP[mp[name]]

        def run(it, a, k):
            r = nat.fn(it, a, k)
            if isinstance(r, Arr):
                r = Arr(r.t, r.dt, py=True)
                if name in ("floor", "ceil"):
                    r.dt = "i"
            return r
        return Native(name, run)
    if name == "pi":
        return _np_attr(it, Module("numpy", {}), "pi")
    if name == "inf":
        return INF
    if name == "nan":
        return float("nan")
    if name == "prod":
        def run(it, a, k):
            acc = 1
            for x in iter_concrete(it, a[0]):
                acc = binop(it, "Mult", acc, x)
            return acc
        return Native(name, run)
    return UNDEF


@mod("itertools")
def _itt(it, m, name):
    import itertools
    if name in ("product", "chain", "combinations", "permutations"):
        def run(it, a, k):
            f = getattr(itertools, name)
            if name in ("product", "chain"):
                return [x for x in f(*[iter_concrete(it, y) for y in a], **k)]
            return list(f(iter_concrete(it, a[0]), *a[1:]))
        return Native(name, run)
    return UNDEF


@mod("joblib")
def _joblib(it, m, name):
    if name == "delayed":
        def delayed(it, a, k):
            f = a[0]
            return Native("delayed", lambda it2, a2, k2: Thunk(f, a2, k2))
        return Native(name, delayed)
    if name == "Parallel":
        def par(it, a, k):
            it.event("parallel", kw=k)

            def run(it2, a2, k2):
                src = a2[0]
                if isinstance(src, SymList):
                    return SymList(src.n, src.label, force(it2, src.elem))
                return [force(it2, x) for x in iter_concrete(it2, src)]
            return Native("Parallel()", run)
        return Native(name, par)
    return UNDEF


class Thunk:
    def __init__(self, f, a, k):
        self.f, self.a, self.k = f, a, k


def force(it, t):
    if isinstance(t, Thunk):
        return it.call(t.f, list(t.a), dict(t.k))
    f, a, k = t
    return it.call(f, list(a), dict(k))


@mod("numbers", "collections.abc", "typing", "abc", "collections")
def _typing(it, m, name):
    if name in TYPES:
        return TYPES[name]
    if name in ("Real", "Integral", "Complex"):
        return T({"Real": "float", "Integral": "int", "Complex": "complex"}[name])
    if name == "OrderedDict":
        return T("dict")
    if name == "namedtuple":
        it.unsupported("namedtuple")
    return Opaque("%s.%s" % (m.name, name))


# ================================================================ attributes of values
def arr_shape(a):
    return tuple(num(d) for d in a.shape)


AM = {}          # methods of arrays


@table(AM, "reshape")
def _m_reshape(it, a, *shape, order="C"):
    if len(shape) == 1:
        shape = shape[0]
    return reshape_(it, a, shape, order)


@table(AM, ["ravel"])
def _m_ravel(it, a, order="C"):
    return reshape_(it, a, (-1,), order)


@table(AM, ["flatten"])
def _m_flatten(it, a, order="C"):
    return copy_(it, reshape_(it, a, (-1,), order))


@table(AM, ["conj", "conjugate"])
def _m_conj(it, a):
    # the method returns the array itself when it is not complex (the function copies)
    return a if a.dt in "fib" else conj_(it, a)


@table(AM, "copy")
def _m_copy(it, a, order="C"):
    return copy_(it, a)


@table(AM, "astype")
def _m_astype(it, a, dtype, copy=True, order=None, casting=None):
    return astype(it, a, dtype_of(it, dtype), it.truth(copy))


@table(AM, "view")
def _m_view(it, a, dtype=None):
    d = dtype_of(it, dtype, a.dt)
    if d != a.dt:
        it.unsupported("reinterpreting view")
    return view(it, a, lambda t: t, lambda p, u: u)


for _nm in ("sum", "prod", "max", "min", "any", "all", "mean"):
    table(AM, _nm)(_red(_nm))


@table(AM, "var")
def _m_var(it, a, axis=None, ddof=0, keepdims=False):
    return var_(it, a, axis, ddof, keepdims)


@table(AM, "std")
def _m_std(it, a, axis=None, ddof=0, keepdims=False):
    return sqrt_(it, var_(it, a, axis, ddof, keepdims))


@table(AM, "dot")
def _m_dot(it, a, b):
    return dot_(it, a, to_arr(it, b))


@table(AM, "trace")
def _m_trace(it, a, offset=0, axis1=0, axis2=1):
    return trace_(it, a, axis1, axis2, offset)


@table(AM, "transpose")
def _m_transpose(it, a, *axes):
    if len(axes) == 1 and not isinstance(axes[0], int):
        axes = axes[0]
    return transpose_(it, a, list(axes) if axes else None)


@table(AM, "swapaxes")
def _m_swap(it, a, i, j):
    return _swap(it, a, i, j)


@table(AM, "take")
def _m_take(it, a, idx, axis=None):
    return take_(it, a, idx, axis)


@table(AM, "squeeze")
def _m_squeeze(it, a, axis=None):
    return squeeze_(it, a, axis)


@table(AM, "diagonal")
def _m_diagonal(it, a, offset=0, axis1=0, axis2=1):
    return _diagonal(it, a, offset, axis1, axis2)


@table(AM, "repeat")
def _m_repeat(it, a, n, axis=None):
    return repeat_(it, a, n, axis)


@table(AM, "fill")
def _m_fill(it, a, v):
    arr_setitem(it, a, Ellipsis, v)


@table(AM, "item")
def _m_item(it, a, *idx):
    r = a
    for k in idx:
        r = arr_getitem(it, r, k)
    if r.ndim:
        r = squeeze_(it, r)
    return Arr(r.t, r.dt, py=True)


@table(AM, "tolist")
def _m_tolist(it, a):
    if a.ndim == 0:
        return Arr(a.t, a.dt, py=True)
    xs = iter_maybe(it, a)
    if xs is None:
        it.unsupported("tolist")
    return [_m_tolist(it, x) for x in xs]


@table(AM, "round")
def _m_round(it, a, decimals=0):
    return _nround(it, a, decimals)


@table(AM, "clip")
def _m_clip(it, a, lo=None, hi=None):
    return _clip(it, a, lo, hi)


@table(AM, ["setflags", "argsort", "argmax", "argmin", "cumsum", "nonzero", "tobytes",
            "searchsorted", "cumprod"])
def _m_un(it, a, *r, **k):
    it.unsupported("array method not modelled")


@table(AM, ["sort", "resize", "partition", "put", "itemset", "byteswap"])
def _m_mut(it, a, *r, **k):
    note_write(it, a, "in-place method")
    it.unsupported("array method not modelled")


for _d, _op in (("__iadd__", "Add"), ("__isub__", "Sub"), ("__imul__", "Mult"), ("__itruediv__", "Div")):
    def _mki(op):
        def f(it, a, b):
            return it.inplace(op, a, b)
        return f
    table(AM, _d)(_mki(_op))


@table(AM, "__setitem__")
def _m_setitem(it, a, k, v):
    arr_setitem(it, a, k, v)


@table(AM, "__getitem__")
def _m_getitem(it, a, k):
    return it.getitem(a, k)


for _d, _op in (("__add__", "Add"), ("__sub__", "Sub"), ("__mul__", "Mult"), ("__truediv__", "Div"),
                ("__matmul__", "MatMult"), ("__pow__", "Pow")):
    def _mkd(op):
        def f(it, a, b):
            return binop(it, op, a, b)
        return f
    table(AM, _d)(_mkd(_op))


def arr_attr(it, a, name):
    if a.tr:
        it.event("boxattr", name=name)
    if name == "shape":
        return arr_shape(a)
    if name == "ndim":
        return a.ndim
    if name == "T":
        return transpose_(it, a)
    if name == "dtype":
        return DT(a.dt)
    if name == "size":
        return num(size_of(a.t))
    if name == "real":
        return real_(it, a)
    if name == "imag":
        return imag_(it, a)
    if name == "flat":
        return reshape_(it, a, (-1,))
    if name in ("itemsize", "nbytes", "strides", "flags", "data", "base", "ctypes"):
        return Opaque("ndarray." + name)
    m = AM.get(name)
    if m is not None:
        if a.py and name not in ("conjugate", "conj", "real", "imag", "is_integer"):
            return UNDEF
        return Bound(m, a)
    return UNDEF


def set_arr_attr(it, a, name, v):
    if name in ("real", "imag"):
        if a.dt in "fib" and name == "real":
            return arr_setitem(it, a, Ellipsis, v)
        old = a.t
        other = imag_(it, Arr(old, a.dt)) if name == "real" else real_(it, Arr(old, a.dt))
        v = to_arr(it, v)
        im = Arr(tf.imag_unit(), "c", py=True)
        r = binop(it, "Add", v, binop(it, "Mult", im, other)) if name == "real" else \
            binop(it, "Add", other, binop(it, "Mult", im, v))
        write_into(it, a, r)
        return
    if name == "shape":
        note_write(it, a, "shape")
        it.unsupported("assignment to shape")
    it.raise_("AttributeError", "attribute %s" % name)


def list_method(it, o, name):
    def nat(f):
        return Native("list." + name, f)
    if name == "append":
        return nat(lambda it, a, k: o.append(a[0]))
    if name == "extend":
        return nat(lambda it, a, k: o.extend(iter_concrete(it, a[0])))
    if name == "insert":
        return nat(lambda it, a, k: o.insert(a[0], a[1]))
    if name == "pop":
        return nat(lambda it, a, k: o.pop(*a))
    if name == "copy":
        return nat(lambda it, a, k: list(o))
    if name == "clear":
        return nat(lambda it, a, k: o.clear())
    if name == "reverse":
        return nat(lambda it, a, k: o.reverse())
    if name == "index":
        def f(it, a, k):
            for i, x in enumerate(o):
                if is_same(it, x, a[0]) or same_value(x, a[0]):
                    return i
            it.raise_("ValueError", "not in list")
        return nat(f)
    if name == "count":
        return nat(lambda it, a, k: sum(1 for x in o if same_value(x, a[0])))
    if name == "remove":
        return nat(lambda it, a, k: o.remove(a[0]))
    return UNDEF


def dict_method(it, o, name):
    def nat(f):
        return Native("dict." + name, f)
    if name == "get":
        return nat(lambda it, a, k: o.get(hashable(it, a[0]), a[1] if len(a) > 1 else None))
    if name == "items":
        return nat(lambda it, a, k: [(x, y) for x, y in o.items()])
    if name == "keys":
        return nat(lambda it, a, k: list(o.keys()))
    if name == "values":
        return nat(lambda it, a, k: list(o.values()))
    if name == "update":
        return nat(lambda it, a, k: o.update(*(a if a else [{}]), **k))
    if name == "pop":
        def f(it, a, k):
            if a[0] in o:
                return o.pop(a[0])
            if len(a) > 1:
                return a[1]
            it.raise_("KeyError", a[0])
        return nat(f)
    if name == "setdefault":
        return nat(lambda it, a, k: o.setdefault(a[0], a[1] if len(a) > 1 else None))
    if name == "copy":
        return nat(lambda it, a, k: dict(o))
    return UNDEF


def str_method(it, o, name):
    def f(it, a, k):
        if name == "format":
            return o
        if name == "join":
            return o.join(tostr(it, x) for x in iter_concrete(it, a[0]))
        return getattr(o, name)(*a, **k)
    if hasattr(o, name):
        return Native("str." + name, f)
    return UNDEF


def value_attr(it, o, name):
    if isinstance(o, Arr):
        return arr_attr(it, o, name)
    if isinstance(o, (bool, int, Fraction, float)):
        if name == "real":
            return o
        if name == "imag":
            return 0
        if name in ("conjugate",):
            return Native(name, lambda it, a, k: o)
        if name == "is_integer":
            return Native(name, lambda it, a, k: o == int(o))
        return UNDEF
    if isinstance(o, list):
        return list_method(it, o, name)
    if isinstance(o, GrowList):
        if name == "append":
            return Native("list.append", lambda it, a, k: o.added.append(a[0]))
        it.unsupported("a list that grows in a loop")
    if isinstance(o, SymList) and name in ("append", "extend"):
        it.unsupported("append to a list of symbolic length")
    if isinstance(o, dict):
        return dict_method(it, o, name)
    if isinstance(o, str):
        return str_method(it, o, name)
    if isinstance(o, tuple):
        if name == "index":
            return list_method(it, list(o), name)
        if name == "count":
            return list_method(it, list(o), name)
        return UNDEF
    if isinstance(o, set):
        if name == "add":
            return Native(name, lambda it, a, k: o.add(hashable(it, a[0])))
        if name in ("union", "intersection", "difference", "issubset"):
            return Native(name, lambda it, a, k: getattr(o, name)(*a))
        return UNDEF
    if isinstance(o, DT):
        if name == "kind":
            return o.kind
        if name in ("name", "char"):
            return {"f": "float64", "c": "complex128", "i": "int64", "b": "bool"}.get(o.kind, "?")
        if name == "type":
            return T({"f": "float64", "c": "complex128", "i": "int64", "b": "bool_"}[o.kind])
        return UNDEF
    if isinstance(o, Native):
        if name in o.attrs:
            return o.attrs[name]
        if name in ("__name__", "__qualname__"):
            return o.name
        return UNDEF
    if isinstance(o, Opaque):
        if name in o.attrs:
            return o.attrs[name]
        if "type" in o.attrs:
            if name in ("__name__", "__qualname__"):
                return o.attrs["type"]
            m = {"list": list_method, "dict": dict_method}.get(o.attrs["type"])
            it.unsupported("attribute %s of type %s" % (name, o.attrs["type"]))
        if o.attrs.get("closed"):
            return UNDEF
        r = Opaque("%s.%s" % (o.name, name))
        r.parent_obj = o
        return r
    if o is None:
        return UNDEF
    if isinstance(o, (SymRange, range)):
        return UNDEF
    if name == "__class__":
        return type_of(it, o)
    return UNDEF


# ================================================================ opaque objects
def call_opaque(it, f, args, kw):
    if f.call is not None:
        return f.call(it, args, kw)
    if "type" in f.attrs:
        return call_type(it, f.attrs["type"], args, kw)
    if f.name.split(".")[0] in ("numpy", "scipy", "autograd", "pymanopt", "sklearn", "math", "functools") and \
            not f.attrs.get("base") and f.name not in BASES:
        if f.name.startswith("sklearn.") and "<module>" in (it.fn.qual if it.fn else ""):
            return Opaque(f.name + "()", call=lambda it2, a, k: a[0] if a else None)
        it.unsupported("external function %s is not modelled" % f.name)
    it.event("extcall", name=f.name, obj=f, args=args, kw=kw)
    if f.name in BASES or f.attrs.get("base"):
        o = Opaque(f.name + "()", attrs={"truth": True, "made": (f, args, kw)})
        return o
    pn = getattr(f, "parent_obj", None)
    if pn is not None and pn.name in ("progress bar",):
        return None
    return Opaque("%s()#%d" % (f.name, it.path.next_serial()))


SK_ATTRS = {"_validate_data", "get_params", "set_params", "fit_transform", "_check_n_features", "_more_tags",
            "_get_tags", "__repr__", "__getstate__", "__setstate__", "set_output", "_get_param_names",
            "_check_feature_names", "get_metadata_routing", "__sklearn_clone__"}


def validate_data(it, o, args, kw):
    vals = dict(zip(["X", "y", "reset", "validate_separately", "cast_to_ndarray"], args))
    vals.update(kw)
    X = vals.get("X", "no_validation")
    known = {"X", "y", "reset", "validate_separately", "cast_to_ndarray"}
    cp = {k: v for k, v in vals.items() if k not in known}
    it.event("validate", obj=o, X=X, reset=vals.get("reset", True), params=cp)
    out = check_array(it, [X], cp) if X is not None and not isinstance(X, str) else X
    reset = vals.get("reset", True)
    if isinstance(out, Arr) and cp.get("ensure_2d", True):
        n = num(out.shape[1])
        if it.truth(reset):
            it.setattr(o, "n_features_in_", n)
        elif "n_features_in_" in o.attrs:
            if not it.truth(compare(it, "Eq", n, o.attrs["n_features_in_"])):
                it.raise_("ValueError", "X has a different number of features")
    y = vals.get("y", "no_validation")
    if y is not None and not isinstance(y, str):
        return (out, y)
    return out


def sk_method(it, o, name):
    if name == "_validate_data":
        return Native(name, lambda it, a, k: validate_data(it, o, a, k))
    if name == "fit_transform":
        def run(it, a, k):
            # TransformerMixin.fit_transform
            X, rest = a[0], list(a[1:])
            y = rest[0] if rest else k.pop("y", None)
            r = it.call(it.getattr(o, "fit"), [X] if y is None else [X, y], dict(k))
            return it.call(it.getattr(r, "transform"), [X], {})
        return Native(name, run)
    if name == "get_params":
        def run(it, a, k):
            init, c = o.cls.lookup("__init__")
            out = {}
            for x in param_names(init):
                out[x] = it.getattr(o, x)
            return out
        return Native(name, run)
    if name == "set_params":
        def run(it, a, k):
            init, c = o.cls.lookup("__init__")
            names = param_names(init)
            for n, v in k.items():
                if n not in names:
                    it.raise_("ValueError", "Invalid parameter %s" % n)
                it.setattr(o, n, v)
            return o
        return Native(name, run)
    return None


def param_names(init):
    a = init.node.args
    return [x.arg for x in a.posonlyargs + a.args][1:] + [x.arg for x in a.kwonlyargs]


def opaque_method(it, o, ext, name):
    """attribute of an instance (or class) found only on an external base"""
    obj = o if isinstance(o, Inst) else None
    names = [b.name for b in (o.cls if obj else o).mro() if isinstance(b, Opaque)]
    if any(n.startswith("sklearn.") for n in names) and name in SK_ATTRS and obj is not None:
        if name == "fit_transform" and "sklearn.TransformerMixin" not in names:
            return UNDEF
        r = sk_method(it, o, name)
        if r is not None:
            return r
    if any(n.startswith("sklearn.") for n in names):
        return UNDEF
    if any(n.startswith("scipy.") for n in names):
        return scipy_method(it, o, (o.cls if obj else o), name, None)
    if name.startswith("__") and name.endswith("__"):
        return UNDEF
    e = Opaque("%s.%s" % (ext.name, name))
    return e


def opaque_super(it, s, ext, name):
    obj = s.obj
    cls = obj.cls if isinstance(obj, Inst) else obj
    names = [b.name for b in cls.mro() if isinstance(b, Opaque)]
    if any(n.startswith("sklearn.") for n in names):
        if isinstance(obj, Inst):
            r = sk_method(it, obj, name)
            if r is not None:
                return r
        if name == "__init__":
            return Native("object.__init__", lambda it, a, k: None)
        return UNDEF
    if any(n.startswith("scipy.") for n in names):
        return scipy_method(it, obj, cls, name, s.cls)

    def run(it2, a, k):
        it2.event("supercall", base=ext.name, name=name, args=a, kw=k, obj=obj)
        if name == "__init__":
            return None
        return Opaque("%s.%s()" % (ext.name, name))
    return Native("super." + name, run)


# ---- scipy multivariate distributions (generic and frozen): uninterpreted
# except for the dispatch frozen.pdf -> self.logpdf and frozen.logcdf -> self.cdf of the
# installed scipy; signatures are read from the installed source.
_SIG = {}


def scipy_sig(it, cls, meth):
    if not _SIG:
        import os
        from interp import SITE
        f = os.path.join(SITE, "scipy", "stats", "_multivariate.py")
        with open(f, encoding="utf-8") as fh:
            tree = ast.parse(fh.read())
        for c in tree.body:
            if isinstance(c, ast.ClassDef):
                for m in c.body:
                    if isinstance(m, ast.FunctionDef):
                        _SIG[(c.name, m.name)] = m.args
        it.prog.consulted.add(f)
    return _SIG.get((cls, meth))


def scipy_bind(it, cls, meth, args, kw):
    a = scipy_sig(it, cls, meth)
    if a is None:
        it.raise_("AttributeError", "%s has no method %s" % (cls, meth))
    pos = [x.arg for x in a.args][1:]
    kwo = [x.arg for x in a.kwonlyargs]
    if len(args) > len(pos):
        it.raise_("TypeError", "%s.%s() takes %d positional arguments but %d were given" %
                  (cls, meth, len(pos) + 1, len(args) + 1))
    vals = dict(zip(pos, args))
    for k, v in kw.items():
        if k not in pos + kwo:
            it.raise_("TypeError", "%s.%s() got an unexpected keyword argument '%s'" % (cls, meth, k))
        if k in vals:
            it.raise_("TypeError", "%s.%s() got multiple values for argument '%s'" % (cls, meth, k))
        vals[k] = v
    nd = len(a.defaults)
    given = set(vals)
    for i, n in enumerate(pos):
        if n not in vals:
            j = i - (len(pos) - nd)
            if j < 0:
                it.raise_("TypeError", "%s.%s() missing argument '%s'" % (cls, meth, n))
            vals[n] = lit(a.defaults[j])
    for n, d in zip(kwo, a.kw_defaults):
        if n not in vals:
            vals[n] = lit(d) if d is not None else None
    return vals


def lit(n):
    try:
        v = ast.literal_eval(n)
    except ValueError:
        return Opaque(ast.unparse(n))
    if isinstance(v, float):
        return Fraction(repr(v))
    return v


def scipy_object(name):
    """the distribution objects of scipy.stats"""
    def method(cls, meth, more):
        def run(it, a, k):
            full = dict(more)
            full.update(scipy_bind(it, cls, meth, a, k))
            return dist_value(it, name, meth, full)
        return Native("scipy.%s.%s" % (cls, meth), run)
    ms = ("logpdf", "pdf", "cdf", "logcdf", "rvs", "entropy")

    def freeze(it, a, k):
        vals = scipy_bind(it, name + "_gen", "__call__", a, k)
        return Opaque("scipy.%s_frozen()" % name, attrs={"truth": True, **{m: method(name + "_frozen", m, vals) for m in ms}})
    return Opaque("scipy." + name, attrs={"dist": name, "truth": True, **{m: method(name + "_gen", m, {}) for m in ms}}, call=freeze)


def scipy_base(cls):
    for b in cls.mro():
        if isinstance(b, Opaque) and b.name.startswith("scipy."):
            return b.attrs["cls"]
    return None


def scipy_method(it, o, cls, name, after):
    b = scipy_base(cls)
    if b is None:
        return UNDEF
    if name != "__init__" and scipy_sig(it, b, name) is None:
        if name == "random_state" or name.startswith("_"):
            return Opaque("scipy.%s.%s" % (b, name))
        return UNDEF

    def run(it2, a, k):
        vals = scipy_bind(it2, b, name, a, k)
        it2.event("scipy", cls=b, name=name, args=vals, obj=o, given=(list(a), dict(k)))
        if name == "__init__":
            o.attrs["$init"] = vals
            return None
        if b.endswith("_frozen"):
            if name == "pdf":
                return cum(it2, "exp", [it2.call(it2.getattr(o, "logpdf"), [vals["x"]], {})])
            if name == "logcdf":
                kk = {n: v for n, v in vals.items() if n != "x"}
                if b.startswith("multivariate_normal"):
                    return cum(it2, "log", [it2.call(it2.getattr(o, "cdf"), [vals["x"]], kk)])
            full = dict(o.attrs.get("$init", {}))
            full.update(vals)
        else:
            full = vals
        return dist_value(it2, b.replace("_frozen", "").replace("_gen", ""), name, full)
    return Native("scipy.%s.%s" % (b, name), run)


# normal: mean, cov ; t: loc, shape, df
def dist_value(it, dist, name, vals):
    """value of a distribution function as an uninterpreted function of its arguments"""
    used = {"logpdf": ["x"], "pdf": ["x"], "cdf": ["x", "lower_limit"], "logcdf": ["x", "lower_limit"],
            "rvs": ["size"], "entropy": []}.get(name)
    if used is None:
        return Opaque("scipy.%s.%s()" % (dist, name))
    par = ["mean", "cov"] if "normal" in dist else ["loc", "shape", "df"]
    it.event("dist", dist=dist, name=name, vals=vals, params=[vals.get(p) for p in par],
             x=vals.get("x"), lower=vals.get("lower_limit"), size=vals.get("size"))
    pars = []
    for p in par:
        v = vals.get(p)
        if v is None:
            pars.append(None)
        else:
            pars.append(to_arr(it, v))
    cov = pars[1]
    if name == "rvs":
        return rvs_value(it, dist, pars, vals)
    if name == "entropy":
        return mk(it, tf.op_T("scipy.%s.entropy" % dist, [tf.flat(q.t) for q in pars if q is not None], (),
                              real=True), "f")
    x = to_arr(it, vals["x"])
    low = vals.get("lower_limit")
    low = to_arr(it, low) if low is not None else None
    xt = x.t
    if pars[0] is not None:
        # location families: a function of x - location
        x = binop(it, "Sub", x, pars[0])
        low = binop(it, "Sub", low, pars[0]) if low is not None else None
        if x.ndim != xt.rank:
            it.raise_("ValueError", "dimensions of the points and the location differ")
    args = [tf.flat(x.t)] + [tf.flat(q.t) for q in pars[1:] if q is not None]
    if low is not None:
        args.append(tf.flat(low.t))
    outd = x.shape[:-1] if x.ndim > 1 else ()
    base_name = {"logpdf": "pdf", "logcdf": "cdf"}.get(name, name)
    # x[k] |-> density at row k : independent rows
    if len(outd) == 1 and low is None:
        row = tf.build((1,), x.t.dims[-1:], [
            (c, ph, [(f[0], f[1], f[2], tuple(("o", "$row") if l == 0 else l - 1 if isinstance(l, int) and
                                              l < tf.BOUND0 else l for l in f[3])) for f in fs], tf._bounds(fs))
            for (ph, fs), c in tf.flat(x.t).terms]) if x.t.n == 2 else None
        if row is not None:
            v = tf.op_T("scipy.%s.%s" % (dist, base_name), [row] + args[1:], (), real=True, pos=True)
            v = relabel(v, {("o", "$row"): 0}) if False else v
    val = tf.op_T("scipy.%s.%s" % (dist, base_name), args, tuple(outd), real=True, pos=True)
    r = mk(it, val, "f")
    if name in ("logpdf", "logcdf"):
        r = cum(it, "log", [r])
    return r


def rvs_value(it, dist, pars, vals):
    cov = pars[1]
    d = cov.shape[-1] if cov.ndim else F1
    size = vals.get("size", 1)
    s = shape_of(it, size)
    dims = tuple(s) + (d,)
    # scipy squeezes the result
    dims = tuple(x for x in dims if x != F1)
    node = tf.leaf(it.path.fresh_name("$rvs"), dims, real=all(q is None or q.dt != "c" for q in pars))
    a = mk(it, tf.from_node(node), "f")
    it.event("rng", name="scipy.%s.rvs" % dist, shape=dims, leaf=node, args=vals)
    return a


def opaque_item(it, o, k):
    if "items" in o.attrs and isinstance(k, int):
        return o.attrs["items"][k]
    return Opaque("%s[%s]" % (o.name, k if isinstance(k, (int, str)) else "?"))


def opaque_binop(it, op, a, b):
    nm = lambda x: x.name if isinstance(x, Opaque) else tostr(it, x) if x is not None else ""
    return Opaque("(%s %s %s)" % (nm(a), op, nm(b)))


def BUILTIN_LIST(it, v):
    """list(v) for the base constructor of a list subclass."""
    xs = iter_maybe(it, v)
    if xs is None:
        it.unsupported("a list subclass over a symbolic number of items")
    return list(xs)


for _n in ("BUILTIN_LIST", "opaque_binop", "opaque_item", "opaque_array", "copy_", "astype", "type_of", "isinst"):
    setattr(npm, _n, globals()[_n])
